------------------------------ MODULE Requests ------------------------------
(* What a message on the control channel is (S07), and when a start request is complete (S11).                    *)
(* A request: adapter (none: not named), ms (mediasoup options: none, nosdp, empty, sdp), opts (adapter options:   *)
(* none, null, object), room and tracks of the LiveKit options (lk: none if there are none), legacy (none, empty,  *)
(* sdp).  Events:                                                                                                  *)
(*   val   a request given to the recorder's own reading and validation: read, same (as sent), ok, sdp (which)     *)
(*   msg   any message: kind (startRecording, stopRecording, getRecorderStatus: a well-formed one; none: not one), *)
(*         got (which of them it was taken for, or none), same (the fields are as sent)                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Adapters == {"none", "", "mediasoup", "livekit", "other"}
Offers == {"none", "empty", "sdp"}
Options == [ opts : {"none", "null"}, ms : {"none"}, lk : {"none"}, room : {"none"}, tracks : {-1} ]
     \cup [ opts : {"object"}, ms : {"none", "nosdp", "empty", "sdp"}, lk : {"none"}, room : {"none"}, tracks : {-1} ]
     \cup [ opts : {"object"}, ms : {"none", "nosdp", "empty", "sdp"}, lk : {"object"}, room : {"none", "empty", "room"}, tracks : {-1, 0, 1, 3} ]
Requests == { [ adapter |-> a, legacy |-> l ] @@ o : a \in Adapters, l \in Offers, o \in Options }
Mediasoup(r) == r.adapter \in {"none", "", "mediasoup"}
Complete(r) == IF r.adapter = "livekit" THEN r.lk = "object" /\ r.room = "room" /\ r.tracks > 0
               ELSE Mediasoup(r) /\ (r.ms = "sdp" \/ r.legacy = "sdp")
Sdp(r) == IF r.ms = "sdp" THEN "new" ELSE IF r.legacy = "sdp" THEN "legacy" ELSE "none"
\* the validator leaves other adapters that carry a legacy offer to the dispatcher, which refuses them
Judged(r) == ~(r.adapter = "other" /\ r.legacy = "sdp")

InitSt(cfg) == [ n |-> 0 ]
Step(st, ev) == [ st EXCEPT !.n = @ + 1 ]
Viol(st, ev) ==
  CASE ev.op = "crash" -> {"crash"}
    [] ev.op = "val" ->
         (IF ~ev.read \/ ~ev.same THEN {"S07.read"} ELSE {})
         \cup (IF ev.read /\ ev.ok /\ ~Complete(ev.r) /\ Judged(ev.r) THEN {"S11.accept"} ELSE {})
         \cup (IF ev.read /\ ~ev.ok /\ Complete(ev.r) THEN {"S11.refuse"} ELSE {})
         \cup (IF ev.read /\ Complete(ev.r) /\ Mediasoup(ev.r) /\ ev.sdp # Sdp(ev.r) THEN {"S11.sdp"} ELSE {})
    [] ev.op = "msg" ->
         (IF ev.kind = "none" /\ ev.got # "none" THEN {"S07.ignore"} ELSE {})
         \cup (IF ev.kind # "none" /\ (ev.got # ev.kind \/ ~ev.same) THEN {"S07.read"} ELSE {})
    [] OTHER -> {}
=============================================================================
