------------------------------ MODULE Control ------------------------------
(* The control channel and the life of the process (R02).  Events:                                                  *)
(*   fault  the channel cannot be reached, is refused, lost, or falls silent: kind, t (ms), within (ms by which the *)
(*          process has to be gone)                                                                                  *)
(*   exit   the process ended: code, panic                                                                          *)
(*   look   the process still runs; able: it answers requests                                                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
InitSt(cfg) == [ fault |-> "none", due |-> 0 ]
Step(st, ev) == CASE ev.op = "fault" /\ st.fault = "none" -> [ st EXCEPT !.fault = ev.kind, !.due = ev.t + ev.within ]
                  [] OTHER -> st
Viol(st, ev) ==
  CASE ev.op = "crash" -> {"crash"}
    [] ev.op = "exit" ->
         (IF ev.panic THEN {"crash"} ELSE {})
         \cup (IF st.fault = "none" THEN {"R02.early"} ELSE {})
         \cup (IF st.fault # "none" /\ ev.code = 0 THEN {"R02.status"} ELSE {})
         \cup (IF st.fault # "none" /\ ev.t > st.due THEN {"R02.linger!"} ELSE {})
    [] ev.op = "look" ->
         (IF st.fault # "none" /\ ev.t > st.due THEN {"R02.linger!"} ELSE {})
         \cup (IF st.fault = "none" /\ ~ev.able THEN {"R02.deaf!"} ELSE {})
    [] OTHER -> {}
=============================================================================
