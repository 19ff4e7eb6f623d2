--------------------------- MODULE GenReceiveLog ---------------------------
(* Schedules for the real log: random operations of the abstract log, aimed at the window's edges,   *)
(* the first number, the holes and the wrap-around.                                                  *)
EXTENDS ReceiveLog, Json
CONSTANTS Size, Half, Bases, Ks, GenLen
VARIABLES st, hist
Nums == LET m == Missing(st, 0)
        IN { u \in { st.end + d : d \in { 1, 2, 3, -1, Size - 1, Size, Size + 1 } }
                    \cup { st.end - Size + d : d \in { -1, 0, 1 } }
                    \cup (IF m = <<>> THEN {} ELSE { m[1], m[1] + 1, m[Len(m)] })
                    \cup { st.first - 1, st.first + 1 } : u - st.end < Half /\ st.end - u < Half }
Init == /\ \E b \in { RandomElement(Bases) } :
             /\ st = AddStep(InitSt(Size), b)
             /\ hist = << [ op |-> "add", u |-> b, k |-> 0 ] >>
Do(o, u, k) == /\ st' = Step(st, [ op |-> o, u |-> u, k |-> k ])
               /\ hist' = Append(hist, [ op |-> o, u |-> u, k |-> k ])
Next == \E u \in { RandomElement(Nums) } : \E k \in { RandomElement(Ks) } : \E c \in { RandomElement(1 .. 10) } :
          /\ Len(hist) < GenLen
          /\ CASE c <= 4 -> Do("add", u, 0)
               [] c = 5  -> Do("ignore", u, 0)
               [] c <= 7 -> Do("get", u, 0)
               [] OTHER  -> Do("missing", 0, k)
Spec == Init /\ [][Next]_<< st, hist >>
Emit == Len(hist) # GenLen \/ PrintT("GEN:" \o ToJson([ size |-> Size, ops |-> hist ]))
=============================================================================
