---------------------------- MODULE MC_Requests ----------------------------
(* Every request there is, decided by the validator as designed (a chain of checks) and judged by Requests. *)
EXTENDS Requests, Json
CONSTANTS Gen, Weak
VARIABLES r, viol
Init == r \in Requests /\ viol = {"undecided"}
\* the validator
LiveKitOk == r.lk # "none" /\ (r.room = "room" \/ Weak = "room") /\ r.tracks # -1 /\ r.tracks # 0
Ok == CASE r.adapter = "livekit" -> LiveKitOk
        [] r.adapter \in {"none", "", "mediasoup"} -> r.ms = "sdp" \/ r.legacy = "sdp"
        [] OTHER -> r.legacy = "sdp"
Chosen == IF r.ms = "sdp" /\ ~(Weak = "legacy" /\ r.legacy = "sdp") THEN "new" ELSE IF r.legacy = "sdp" THEN "legacy" ELSE "none"
Decide == /\ viol = {"undecided"} /\ r' = r
          /\ viol' = Viol(InitSt(0), [ op |-> "val", r |-> r, read |-> TRUE, same |-> TRUE, ok |-> Ok, sdp |-> Chosen ])
Next == Decide
Spec == Init /\ [][Next]_<< r, viol >>
Right == viol \in { {}, {"undecided"} }
Emit == ~Gen \/ viol = {} \/ PrintT("GEN:" \o ToJson(r))
=============================================================================
