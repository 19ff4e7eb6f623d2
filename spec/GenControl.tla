----------------------------- MODULE GenControl -----------------------------
(* Every way to lose the channel, at every time: when starting, when subscribed, idle, with sessions, with requests *)
(* under way; with and without the gateway.                                                                         *)
EXTENDS Sequences, TLC, Json
VARIABLE g
AtStart == { "refused", "closed", "auth", "denied", "garbled" }
Later == { "cut", "reset", "down", "kicked", "error", "garbled" }
Init == g \in [ kind : AtStart, phase : {"start"}, http : BOOLEAN ]
          \cup [ kind : Later, phase : {"hello", "idle", "session", "busy"}, http : BOOLEAN ]
          \cup { [ kind |-> "silent", phase |-> p, http |-> FALSE ] : p \in { "start", "idle", "session" } }
          \cup { [ kind |-> "none", phase |-> p, http |-> FALSE ] : p \in { "idle", "session" } }
Next == FALSE /\ UNCHANGED g
Spec == Init /\ [][Next]_g
Emit == PrintT("GEN:" \o ToJson(g))
=============================================================================
