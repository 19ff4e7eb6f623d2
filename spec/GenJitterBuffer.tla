-------------------------- MODULE GenJitterBuffer --------------------------
(* Schedules for the real buffer: behaviours of the model, printed when GenLen operations were taken. *)
EXTENDS MC_JitterBuffer
CONSTANT GenLen
VARIABLE hist
GenInit == Init /\ hist = <<>>
\* one poll or tick in three steps at least: simulation picks uniformly among the (many) adds otherwise
GenNext == /\ \/ (\E s \in 0 .. MaxSeq : s \in { st.cur, st.cur + 1, st.cur + 2, st.end, st.end + 1, st.end - Size, st.cur - 1 } /\ Add(s))
              \/ PollA
              \/ Tick
              \/ Skip(st.cur)
              \/ PollA
           /\ hist' = Append(hist, CASE ev'.op \in {"add", "skip"} -> [ op |-> ev'.op, s |-> ev'.s, d |-> 0 ]
                                     [] ev'.op = "tick" -> [ op |-> "tick", s |-> 0, d |-> 10 ]
                                     [] OTHER -> [ op |-> "poll", s |-> 0, d |-> 0 ])
GenSpec == GenInit /\ [][GenNext]_<< vars, hist >>
Emit == Len(hist) # GenLen \/ PrintT("GEN:" \o ToJson([ size |-> Size, timeout |-> 10 * Timeout - 5, ops |-> hist ]))
=============================================================================
