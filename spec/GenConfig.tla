----------------------------- MODULE GenConfig -----------------------------
(* Which layers give which settings: all pairs of settings, for the driver to choose values. *)
EXTENDS Config, Json
VARIABLE g
How == {"file", "env", "both"}
Init == g \in [ a : Settings, la : How, b : Settings, lb : How \cup {"none"} ]
Next == FALSE /\ UNCHANGED g
Spec == Init /\ [][Next]_g
Emit == PrintT("GEN:" \o ToJson(g))
=============================================================================
