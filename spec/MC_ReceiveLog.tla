--------------------------- MODULE MC_ReceiveLog ---------------------------
(* The log as implemented: a bitmap of Size slots over wrapped numbers (modulo M), the newest number *)
(* and the last one up to which nothing is missing.                                                  *)
EXTENDS ReceiveLog
CONSTANTS M, Size, Base, MaxSeq, Ks
VARIABLES bits, iend, last, istarted, st, viol, ev
vars == << bits, iend, last, istarted, st, viol, ev >>
View == << bits, iend, last, istarted, st, viol >>
Half == M \div 2
W(x) == x % M
Slot(x) == W(x) % Size

Init == /\ bits = [ i \in 0 .. Size - 1 |-> FALSE ] /\ iend = 0 /\ last = 0 /\ istarted = FALSE
        /\ st = InitSt(Size) /\ viol = {} /\ ev = [ op |-> "init" ]

Observe(e) == ev' = e /\ viol' = viol \cup Viol(st, e) /\ st' = Step(st, e)

RECURSIVE Ffw(_, _, _)
Ffw(b, l, e) == IF l = e \/ ~b[Slot(l + 1)] THEN l ELSE Ffw(b, W(l + 1), e)

AddFirst(u) == /\ ~istarted /\ istarted' = TRUE /\ iend' = W(u) /\ last' = W(u)
               /\ bits' = [ bits EXCEPT ![Slot(u)] = TRUE ]
               /\ Observe([ op |-> "add", u |-> u ])

AddNewer(u) ==
  LET d == (W(u) - iend) % M
      cleared == TLCEval([ i \in 0 .. Size - 1 |-> IF \E k \in 1 .. d - 1 : Slot(iend + k) = i THEN FALSE ELSE bits[i] ])
      l1 == IF W(last + 1) = W(u) THEN W(u)
            ELSE IF (W(u) - last) % M > Size THEN Ffw(cleared, W(u - Size), W(u)) ELSE last
  IN /\ istarted /\ d # 0 /\ d < Half
     /\ bits' = TLCEval([ cleared EXCEPT ![Slot(u)] = TRUE ]) /\ iend' = W(u) /\ last' = l1
     /\ UNCHANGED istarted /\ Observe([ op |-> "add", u |-> u ])

AddOlder(u) ==
  LET d == (W(u) - iend) % M
      old == (iend - W(u)) % M >= Size
  IN /\ istarted /\ d >= Half
     /\ bits' = IF old THEN bits ELSE [ bits EXCEPT ![Slot(u)] = TRUE ]
     /\ last' = IF ~old /\ W(last + 1) = W(u) THEN Ffw(bits, W(u), iend) ELSE last
     /\ UNCHANGED << iend, istarted >> /\ Observe([ op |-> "add", u |-> u ])

Ignore(u) ==
  LET out == (iend - W(u)) % M >= Size
      b == TLCEval([ bits EXCEPT ![Slot(u)] = TRUE ])
  IN /\ istarted
     /\ bits' = IF out THEN bits ELSE b
     /\ last' = IF ~out /\ W(u) = W(last + 1) THEN Ffw(b, W(u), iend) ELSE last
     /\ UNCHANGED << iend, istarted >> /\ Observe([ op |-> "ignore", u |-> u ])

RECURSIVE Scan(_, _, _)
Scan(i, until, acc) == IF i = W(until + 1) THEN acc ELSE Scan(W(i + 1), until, IF bits[Slot(i)] THEN acc ELSE Append(acc, i))
Lift(q) == LET d == (q - iend) % M IN st.end + (IF d >= Half THEN d - M ELSE d)
Ask(k) ==
  LET span == (iend - last) % M
      ws == IF k > span THEN <<>> ELSE Scan(W(last + 1), W(iend - k), <<>>)
      out == [ i \in DOMAIN ws |-> Lift(ws[i]) ]
  IN /\ istarted /\ UNCHANGED << bits, iend, last, istarted >>
     /\ Observe([ op |-> "missing", k |-> k, out |-> out, n |-> Len(out) ])

Get(u) ==
  LET d == (iend - W(u)) % M
  IN /\ istarted /\ UNCHANGED << bits, iend, last, istarted >>
     /\ Observe([ op |-> "get", u |-> u, r |-> (d < Half /\ d < Size /\ bits[Slot(u)]) ])

\* numbers less than half the number space away from the newest one
OkNum(u) == u \in Base .. MaxSeq /\ (~st.started \/ (u - st.end < Half /\ st.end - u < Half))
Nums == { u \in Base .. MaxSeq : OkNum(u) }
Next == \/ \E u \in Nums : AddFirst(u) \/ AddNewer(u) \/ AddOlder(u) \/ Ignore(u) \/ Get(u)
        \/ \E k \in Ks : Ask(k)
Spec == Init /\ [][Next]_vars
Ok == viol = {}
Refines == istarted => /\ iend = W(st.end)
                       /\ \A u \in Max(st.first, st.end - Size + 1) .. st.end : bits[Slot(u)] = (u \in st.got)
=============================================================================
