------------------------------ MODULE MC_Nack ------------------------------
(* The encoder as implemented (one pass over the list), for every ascending list over a small ring.  *)
EXTENDS Nack, Json
CONSTANTS Gen
VARIABLES list, pairs, i, start, mask, viol
vars == << list, pairs, i, start, mask, viol >>
\* every ascending (modulo wrap-around) list: a starting number and a set of later ones within half the ring
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN << m >> \o Sorted(S \ {m})
Lists == { LET o == Sorted(S) IN [ k \in DOMAIN o |-> (f + o[k]) % M ] :
           f \in 0 .. M - 1, S \in { T \in SUBSET (0 .. M \div 2 - 1) : T = {} \/ 0 \in T } }
Init == /\ list \in Lists /\ pairs = <<>> /\ i = 1 /\ start = -1 /\ mask = 0 /\ viol = {}
Next ==
  \/ /\ i <= Len(list) /\ i' = i + 1 /\ UNCHANGED << list, viol >>
     /\ IF i = 1 THEN start' = list[1] /\ mask' = 0 /\ pairs' = pairs
        ELSE IF D(start, list[i]) > B
        THEN /\ pairs' = Append(pairs, << start, mask >>) /\ start' = list[i] /\ mask' = 0
        ELSE mask' = mask + 2 ^ (D(start, list[i]) - 1) /\ UNCHANGED << start, pairs >>
  \/ /\ i = Len(list) + 1 /\ i' = i + 1 /\ UNCHANGED << list, start, mask >>
     /\ LET p == IF list = <<>> THEN <<>> ELSE Append(pairs, << start, mask >>)
        IN /\ pairs' = p
           /\ viol' = Viol([ n |-> 0 ], [ op |-> "enc", in |-> list, pairs |-> p, dec |-> Decode(p) ])
Spec == Init /\ [][Next]_vars
Ok == viol = {}
Finished == i = Len(list) + 2 => pairs = <<>> \/ list # <<>>
Emit == ~Gen \/ i # 1 \/ PrintT("GEN:" \o ToJson([ in |-> list ]))
=============================================================================
