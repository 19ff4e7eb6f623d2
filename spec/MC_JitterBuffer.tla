-------------------------- MODULE MC_JitterBuffer --------------------------
(* Implementation-shaped model of the buffer: a ring of Size slots indexed by number modulo Size,    *)
(* cleared on forward gaps and on jumps, driven against the abstract buffer.                         *)
EXTENDS JitterBuffer, Json

CONSTANTS Size, Timeout, MaxSeq, MaxAdds, MaxClock, MaxSkips

VARIABLES ring, nextStart, iend, istarted, itimers, clock, adds, skips, st, viol, ev

vars == << ring, nextStart, iend, istarted, itimers, clock, adds, skips, st, viol, ev >>
View == << ring, nextStart, iend, istarted, itimers, clock, adds, skips, st, viol >>

NoRing == [ i \in 0 .. Size - 1 |-> 0 ]

Init ==
  /\ ring = NoRing /\ nextStart = 0 /\ iend = 0 /\ istarted = FALSE /\ itimers = EmptyFn
  /\ clock = 0 /\ adds = 0 /\ skips = 0 /\ st = InitSt(Size, Timeout) /\ viol = {} /\ ev = [ op |-> "init" ]

Observe(e) == /\ ev' = e /\ viol' = viol \cup Viol(st, e) /\ st' = Step(st, e)

\* Add, as in the code: refuse, else slide, clear, store
Add(s) ==
  LET t == adds + 1
      refuse == iend - s >= Size
      dup == s <= iend /\ ring[s % Size] # 0
      ns0 == IF istarted THEN nextStart ELSE s
      cleared == IF s > iend
                 THEN IF s - iend >= Size THEN NoRing
                      ELSE [ i \in 0 .. Size - 1 |-> IF \E k \in iend + 1 .. s - 1 : k % Size = i THEN 0 ELSE ring[i] ]
                 ELSE ring
      e1 == IF s > iend THEN s ELSE iend
      ns1 == IF ns0 < e1 - Size + 1 THEN e1 - Size + 1 ELSE ns0
  IN /\ adds < MaxAdds /\ adds' = t
     /\ IF refuse \/ dup
        THEN UNCHANGED << ring, nextStart, iend, istarted >>
        ELSE /\ istarted' = TRUE /\ nextStart' = ns1 /\ iend' = e1
             /\ ring' = [ cleared EXCEPT ![s % Size] = t ]
     /\ Observe([ op |-> "add", s |-> s, t |-> t ])
     /\ UNCHANGED << itimers, clock, skips >>

RECURSIVE IRunEnd(_)
IRunEnd(i) == IF i + 1 <= iend /\ ring[(i + 1) % Size] # 0 THEN IRunEnd(i + 1) ELSE i

RECURSIVE IPoll(_, _, _, _)
IPoll(ns, tm, skip, last) ==
  IF ns > iend THEN [ ns |-> ns, tm |-> tm, skip |-> skip, last |-> last, e |-> ns - 1 ]
  ELSE IF ring[ns % Size] # 0
       THEN [ ns |-> ns, tm |-> Restrict(tm, DOMAIN tm \ {ns}), skip |-> skip, last |-> last, e |-> IRunEnd(ns) ]
  ELSE IF ns \notin DOMAIN tm THEN [ ns |-> ns, tm |-> tm @@ (ns :> clock), skip |-> skip, last |-> last, e |-> ns - 1 ]
  ELSE IF clock - tm[ns] < Timeout THEN [ ns |-> ns, tm |-> tm, skip |-> skip, last |-> last, e |-> ns - 1 ]
  ELSE IPoll(ns + 1, Restrict(tm, DOMAIN tm \ {ns}), TRUE, ns)

PollA ==
  LET r == IPoll(nextStart, itimers, FALSE, -1)
      out == [ i \in 1 .. (r.e - r.ns + 1) |-> ring[(r.ns + i - 1) % Size] ]
  IN /\ istarted
     /\ nextStart' = r.e + 1 /\ itimers' = r.tm
     /\ ring' = [ i \in 0 .. Size - 1 |-> IF \E k \in r.ns .. r.e : k % Size = i THEN 0 ELSE ring[i] ]
     /\ Observe([ op |-> "poll", now |-> clock, out |-> out, skip |-> r.skip, named |-> r.skip, last |-> r.last ])
     /\ UNCHANGED << iend, istarted, clock, adds, skips >>

Skip(s) ==
  /\ istarted /\ skips < MaxSkips /\ skips' = skips + 1
  /\ s \notin DOMAIN st.held
  /\ IF s = nextStart
     THEN /\ nextStart' = s + 1 /\ ring' = [ ring EXCEPT ![s % Size] = 0 ]
     ELSE UNCHANGED << nextStart, ring >>
  /\ Observe([ op |-> "skip", s |-> s ])
  /\ UNCHANGED << iend, istarted, itimers, clock, adds >>

Tick ==
  /\ istarted /\ clock < MaxClock /\ clock' = clock + 1
  /\ ev' = [ op |-> "tick", d |-> 1 ]
  /\ UNCHANGED << ring, nextStart, iend, istarted, itimers, adds, skips, st, viol >>

Next == \/ \E s \in 0 .. MaxSeq : Add(s)
        \/ PollA
        \/ \E s \in 0 .. MaxSeq : Skip(s)
        \/ Tick

Spec == Init /\ [][Next]_vars

\* J01, J02: whatever the ring does is what the abstract buffer may do
Ok == viol = {}
\* the ring's cursor and the abstract cursor agree, and the ring holds exactly what the abstract buffer holds
Refines == istarted => /\ nextStart = st.cur /\ iend = st.end
                       /\ \A s \in st.cur .. st.end : (IF s \in DOMAIN st.held THEN st.held[s] ELSE 0) = ring[s % Size]
=============================================================================
