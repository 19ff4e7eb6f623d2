------------------------------ MODULE MC_Unwrap ------------------------------
(* The unwrapper as implemented: a wrap-around offset and the highest wrapped number.               *)
EXTENDS Unwrap, Json
CONSTANTS M, MaxHi, GenLen
VARIABLES started, wraps, highest, st, viol, ev, hist
vars == << started, wraps, highest, st, viol, ev, hist >>
View == << started, wraps, highest, st, viol >>
Init == started = FALSE /\ wraps = 0 /\ highest = 0 /\ st = InitSt(M) /\ viol = {} /\ ev = [ op |-> "init" ] /\ hist = <<>>

Give(n, r) == LET e == [ op |-> "unwrap", n |-> n, r |-> r ]
              IN ev' = e /\ viol' = viol \cup Viol(st, e) /\ st' = Step(st, e)

First(n) == ~started /\ started' = TRUE /\ highest' = n /\ wraps' = 0 /\ Give(n, n)
Same(n)  == started /\ n = highest /\ UNCHANGED << started, wraps, highest >> /\ Give(n, wraps + n)
Wrap(n)  == started /\ n < highest /\ highest - n > M \div 2
            /\ wraps' = wraps + M /\ highest' = n /\ UNCHANGED started /\ Give(n, wraps + M + n)
Late(n)  == started /\ n < highest /\ highest - n <= M \div 2
            /\ UNCHANGED << started, wraps, highest >> /\ Give(n, wraps + n)
LateBefore(n) == started /\ n > highest /\ n - highest > M \div 2
            /\ UNCHANGED << started, highest, wraps >> /\ Give(n, wraps - M + n)
Ahead(n) == started /\ n > highest /\ n - highest <= M \div 2
            /\ highest' = n /\ UNCHANGED << started, wraps >> /\ Give(n, wraps + n)

Next == \E n \in 0 .. M - 1 :
          /\ Admissible(st, n) /\ (st.started => Expected(st, n) <= MaxHi)
          /\ hist' = IF GenLen > 0 THEN Append(hist, n) ELSE hist
          /\ (First(n) \/ Same(n) \/ Wrap(n) \/ Late(n) \/ LateBefore(n) \/ Ahead(n))
Spec == Init /\ [][Next]_vars
Ok == viol = {}
\* one numbering: the implementation's offset and the abstract highest agree
Refines == started => st.hi = wraps + highest
Emit == GenLen = 0 \/ Len(hist) # GenLen \/ PrintT("GEN:" \o ToJson([ base |-> (CHOOSE b \in 1 .. 20 : 2^b = M), in |-> hist ]))
=============================================================================
