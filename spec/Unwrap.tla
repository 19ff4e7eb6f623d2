------------------------------- MODULE Unwrap -------------------------------
(* Unwrapping of M-periodic sequence numbers into one numbering (J03).                              *)
(* st: the highest integer handed out so far, and the first.                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC

InitSt(m) == [ m |-> m, started |-> FALSE, hi |-> 0, first |-> 0 ]

\* the signed distance of n to the number r, modulo m, in -m/2 .. m/2 - 1
Signed(m, n, r) == LET d == (n - r) % m IN IF d >= m \div 2 THEN d - m ELSE d

Expected(st, n) == st.hi + Signed(st.m, n, st.hi)

\* the inputs the property speaks about
Admissible(st, n) ==
  ~st.started \/ (((n - st.hi) % st.m) # st.m \div 2 /\ Expected(st, n) >= st.first)

Viol(st, ev) ==
  IF ev.op = "crash" THEN {"J03.crash"}
  ELSE IF ~st.started THEN (IF (ev.r - ev.n) % st.m = 0 THEN {} ELSE {"J03.congruent"})
  ELSE IF ~Admissible(st, ev.n) THEN {"HARNESS.input"}
  ELSE (IF (ev.r - ev.n) % st.m = 0 THEN {} ELSE {"J03.congruent"})
       \cup (IF ev.r = Expected(st, ev.n) THEN {} ELSE {"J03.distance"})

Step(st, ev) ==
  IF ev.op = "crash" THEN st
  ELSE IF ~st.started THEN [ st EXCEPT !.started = TRUE, !.hi = ev.r, !.first = ev.r ]
  ELSE [ st EXCEPT !.hi = IF ev.r > @ THEN ev.r ELSE @ ]
=============================================================================
