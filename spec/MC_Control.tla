----------------------------- MODULE MC_Control -----------------------------
(* The listener as designed, in steps of ten seconds: it dials, subscribes, and receives with a read timeout of    *)
(* seven steps; a ticker pings every six, and a healthy channel answers; whatever ends the receiver ends the       *)
(* process with a failure.  Weak # "" leaves something out.                                                         *)
EXTENDS Control
CONSTANTS MaxT, Weak
VARIABLES pc, link, t, last, tick, code, told, st, viol
vars == << pc, link, t, last, tick, code, told, st, viol >>
Kinds == { "refused", "auth", "denied", "cut", "kicked", "garbage", "silent" }
Init == /\ pc = "dial" /\ link = "up" /\ t = 0 /\ last = 0 /\ tick = 0 /\ code = -1 /\ told = FALSE
        /\ st = InitSt(0) /\ viol = {}
Ms(x) == x * 10000
Judge(e) == viol' = Viol(st, e) /\ st' = Step(st, e)
Within(k) == IF k = "silent" THEN 75000 ELSE 10000
Fault == \E k \in Kinds :
         /\ link = "up" /\ pc # "gone" /\ link' = k
         /\ (k \in {"refused", "auth"} => pc = "dial") /\ (k = "denied" => pc = "sub") /\ (k \in {"cut", "kicked", "garbage"} => pc = "up")
         /\ Judge([ op |-> "fault", kind |-> k, t |-> Ms(t), within |-> Within(k) ])
         /\ UNCHANGED << pc, t, last, tick, code, told >>
Die(c) == /\ pc' = "gone" /\ code' = c /\ Judge([ op |-> "exit", code |-> c, panic |-> FALSE, t |-> Ms(t) ])
          /\ UNCHANGED << link, t, last, tick, told >>
Dial == /\ pc = "dial"
        /\ \/ link \in {"refused", "auth"} /\ Die(1)
           \/ link \notin {"refused", "auth"} /\ pc' = "sub" /\ last' = t /\ tick' = t /\ UNCHANGED << link, t, code, told, st, viol >>
Sub == /\ pc = "sub"
       /\ \/ link = "denied" /\ (IF Weak = "denied" THEN pc' = "deaf" /\ UNCHANGED << link, t, last, tick, code, told, st, viol >> ELSE Die(1))
          \/ link = "up" /\ pc' = "up" /\ last' = t /\ UNCHANGED << link, t, tick, code, told, st, viol >>
Receive == /\ pc = "up"
           /\ \/ link \in {"cut", "garbage"} /\ (IF Weak = "swallow" THEN pc' = "deaf" /\ UNCHANGED << link, t, last, tick, code, told, st, viol >> ELSE Die(1))
              \/ link = "kicked" /\ (IF Weak = "clean" THEN Die(0) ELSE Die(1))
\* the read timeout
Timeout == pc \in {"sub", "up"} /\ t - last >= 7 /\ Weak # "patient" /\ Die(1)
Ping == /\ pc = "up" /\ t - tick >= 6 /\ Weak # "noping" /\ tick' = t /\ last' = (IF link = "up" THEN t ELSE last)
        /\ UNCHANGED << pc, link, t, code, told, st, viol >>
Urgent == ENABLED Dial \/ ENABLED Sub \/ ENABLED Receive \/ ENABLED Timeout \/ ENABLED Ping
Tick == /\ ~Urgent /\ pc # "gone" /\ t < MaxT /\ t' = t + 1
        /\ Judge([ op |-> "look", t |-> Ms(t'), able |-> pc = "up" ]) /\ UNCHANGED << pc, link, last, tick, code, told >>
Next == viol = {} /\ (Fault \/ Dial \/ Sub \/ Receive \/ Timeout \/ Ping \/ Tick)
Spec == Init /\ [][Next]_vars
Right == viol = {}
=============================================================================
