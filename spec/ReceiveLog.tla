----------------------------- MODULE ReceiveLog -----------------------------
(* The log of received packets of one track (J04).  Numbers are unwrapped.                           *)
(* st: first and newest number, and those received or given up among the size newest ones.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max(a, b) == IF a > b THEN a ELSE b
InitSt(size) == [ size |-> size, started |-> FALSE, first |-> 0, end |-> 0, got |-> {} ]

InWindow(st, u) == u > st.end - st.size /\ u <= st.end

AddStep(st, u) ==
  IF ~st.started THEN [ st EXCEPT !.started = TRUE, !.first = u, !.end = u, !.got = {u} ]
  ELSE LET e == Max(st.end, u)
       IN  [ st EXCEPT !.end = e,
                       !.got = { x \in (IF u > st.end - st.size THEN @ \cup {u} ELSE @) : x > e - st.size } ]

IgnoreStep(st, u) == IF st.started /\ InWindow(st, u) THEN [ st EXCEPT !.got = @ \cup {u} ] ELSE st

\* the missing numbers, oldest first, without the k newest numbers
Missing(st, k) ==
  LET lo == Max(st.first + 1, st.end - st.size + 1)
      hi == st.end - k
  IN  IF ~st.started \/ hi < lo THEN <<>>
      ELSE SelectSeq([ i \in 1 .. hi - lo + 1 |-> lo + i - 1 ], LAMBDA x : x \notin st.got)

Prefix(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, 1, n)

Viol(st, ev) ==
  CASE ev.op = "missing" -> LET m == Missing(st, ev.k)
                            IN IF ev.n = Len(m) /\ ev.out = Prefix(m, Len(ev.out)) THEN {} ELSE {"J04.missing"}
    [] ev.op = "get"     -> IF ev.r = (st.started /\ InWindow(st, ev.u) /\ ev.u \in st.got) THEN {} ELSE {"J04.get"}
    [] ev.op = "crash"   -> {"J04.crash"}
    [] OTHER -> {}

Step(st, ev) ==
  CASE ev.op = "add"    -> AddStep(st, ev.u)
    [] ev.op = "ignore" -> IgnoreStep(st, ev.u)
    [] OTHER -> st
=============================================================================
