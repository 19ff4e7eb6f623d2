----------------------------- MODULE GenReload -----------------------------
(* Histories of sessions and reloads for the real recorder: asks (at most three sessions at a time), reloads of a  *)
(* file with other settings, with fewer, or of a broken one, and stops.                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT GenLen
VARIABLES up, n, hist
Init == up = {} /\ n = 0 /\ hist = <<>>
Going == Len(hist) < GenLen
Ask == /\ Going /\ Cardinality(up) < 3 /\ n < 5 /\ n' = n + 1 /\ up' = up \cup {n + 1}
       /\ hist' = Append(hist, [ a |-> "ask", n |-> n + 1, k |-> "" ])
Reload == /\ Going /\ \E k \in {"other", "fewer", "none", "broken", "twice"} : hist' = Append(hist, [ a |-> "reload", n |-> 0, k |-> k ])
          /\ UNCHANGED << up, n >>
Stop == /\ Going /\ \E x \in up : up' = up \ {x} /\ hist' = Append(hist, [ a |-> "stop", n |-> x, k |-> "" ])
        /\ n' = n
Next == Ask \/ Ask \/ Reload \/ Stop
Spec == Init /\ [][Next]_<< up, n, hist >>
Emit == Len(hist) < GenLen \/ PrintT("GEN:" \o ToJson(hist))
=============================================================================
