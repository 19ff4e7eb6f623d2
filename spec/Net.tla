-------------------------------- MODULE Net --------------------------------
(* A session over a network that loses, duplicates, delays and reorders packets (N01, P01).          *)
(* The history of one session (hv for video, ha for audio):                                          *)
(*   pk   packets in the order sent: frame, whether it is (part of) a keyframe, whether it is the    *)
(*        frame's last, and when it first arrived (-1: never)                                        *)
(*   first the packet that arrived first of all (0: none)                                            *)
(*   ask  requests for packets (number, time) as the sender saw them                                 *)
(*   bl   what the file holds: frame (0: nothing that was ever sent), time, key flag                 *)
(* Times are in ms.  Rules ending in ! depend on the clock of a loaded machine.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Attempts,  \* requests per packet
          Behind,    \* packets that are not yet considered missing
          Tick,      \* time between rounds of requests
          Slack,     \* what the clocks may differ by
          Firm, Near \* how much before anyone stops waiting a packet must arrive to count as in time; and if a rerun confirms it

Inf == 2000000000
InitSt(c) == [ c |-> c, done |-> {} ]
Min(a, b) == IF a < b THEN a ELSE b
At(p) == IF p.arr < 0 THEN Inf ELSE p.arr

\* first arrival of packet i or any later one
After(pk) == LET F[i \in 1 .. Len(pk) + 1] == IF i > Len(pk) THEN Inf ELSE Min(At(pk[i]), F[i + 1])
             IN [ i \in 1 .. Len(pk) + 1 |-> F[i] ]
Past(aft, i) == IF i > Len(aft) THEN Inf ELSE aft[i]

\* (first: the packet that arrived first of all, 0 if none did: what is before it is not known to exist)
Asks(h, i) == { n \in 1 .. Len(h.ask) : h.ask[n].i = i }

\* ---- requests (judged where the sender does not also take requests of the stack) ----
Requests(h, end) ==
  LET pk == h.pk  aft == After(pk)  f == IF h.first = 0 THEN Len(pk) + 1 ELSE h.first
      \* when packet i is so far behind that it counts as missing, if it has not arrived
      due(i) == Past(aft, i + Behind)
      count(i) == Cardinality(Asks(h, i))
      settled == 2 * (Attempts + 4) * Tick + Slack
  IN    (IF \A n \in 1 .. Len(h.ask) : h.ask[n].i \in 1 .. Len(pk) THEN {} ELSE {"N01.phantom"})
   \cup (IF \A i \in 1 .. Len(pk) : count(i) <= Attempts THEN {} ELSE {"N01.bound"})
   \cup (IF \A n \in 1 .. Len(h.ask) : h.ask[n].i \in 1 .. Len(pk) => h.ask[n].t <= At(pk[h.ask[n].i]) + Slack THEN {} ELSE {"N01.never!"})
   \* the newest ones are not asked for yet
   \cup (IF \A n \in 1 .. Len(h.ask) : h.ask[n].i \in 1 .. Len(pk) => h.ask[n].t + Slack >= due(h.ask[n].i) THEN {} ELSE {"N01.early!"})
   \* asked for once it is missing ...
   \cup (IF \A i \in f + 1 .. Len(pk) : due(i) + 2 * Tick + Slack < Min(At(pk[i]), end) => count(i) > 0 THEN {} ELSE {"N01.ask!"})
   \* ... again and again
   \cup (IF \A i \in f + 1 .. Len(pk) : At(pk[i]) = Inf /\ due(i) # Inf /\ due(i) + settled < end => count(i) = Attempts THEN {} ELSE {"N01.again!"})

\* ---- the file ----
Rising(bl) == \A n \in 2 .. Len(bl) : bl[n - 1].f < bl[n].f
Holds(h) ==
        (IF \A n \in 1 .. Len(h.bl) : h.bl[n].f > 0 THEN {} ELSE {"P01.own"})
   \cup (IF Rising(h.bl) THEN {} ELSE {"P01.order"})

\* everything arrives before anyone stops waiting for it: a packet is waited for from when a later one arrives
InTime(h, timeout, margin) ==
  LET pk == h.pk  aft == After(pk)
  IN \A i \in 1 .. Len(pk) : /\ pk[i].arr >= 0
                             /\ pk[i].arr <= Past(aft, i + 1) + timeout - margin
                             /\ Cardinality({ n \in Asks(h, i) : h.ask[n].t <= pk[i].arr }) <= Attempts \div 2
\* (the first to arrive fixes where the numbers begin)
Begun(h) == h.first = 1
Frames(h) == { h.bl[n].f : n \in 1 .. Len(h.bl) }
LastFrame(h) == h.pk[Len(h.pk)].f
\* all frames from the first keyframe on
AllVideo(h) == LET k == { i \in 1 .. Len(h.pk) : h.pk[i].key }
               IN k # {} => Frames(h) = (h.pk[CHOOSE i \in k : \A j \in k : i <= j].f) .. LastFrame(h)
\* all audio from the start of the recording on; the last packets wait for their successors
AllAudio(h, v) == /\ h.bl # <<>>
                  /\ v \/ h.bl[1].f = 1
                  /\ Frames(h) = h.bl[1].f .. h.bl[Len(h.bl)].f
                  /\ h.bl[Len(h.bl)].f >= LastFrame(h) - 2
All(e) == /\ e.v => AllVideo(e.hv)
          /\ e.a => AllAudio(e.ha, e.v)
Kinds(e) == (IF e.v THEN {e.hv} ELSE {}) \cup (IF e.a THEN {e.ha} ELSE {})
\* a frame that builds upon another follows it
Decodable(h) == \A n \in 1 .. Len(h.bl) : h.bl[n].key \/ (n > 1 /\ h.bl[n - 1].f = h.bl[n].f - 1)
KeyFlags(h) == \A n \in 1 .. Len(h.bl) : \A i \in 1 .. Len(h.pk) : h.pk[i].f = h.bl[n].f => h.pk[i].key = h.bl[n].key

FileRules(st, e) ==
        UNION { Holds(h) : h \in Kinds(e) }
   \cup (IF e.ended /\ e.exists => e.wf THEN {} ELSE {"P01.wf"})
   \cup (IF e.v => KeyFlags(e.hv) THEN {} ELSE {"P01.key"})
   \cup (IF e.v /\ st.c.custom /\ e.pids => Decodable(e.hv) THEN {} ELSE {"P01.decodable"})
   \cup (IF e.ended /\ (\A h \in Kinds(e) : Begun(h) /\ InTime(h, st.c.timeout, Firm)) => All(e) THEN {} ELSE {"P01.complete"})
   \cup (IF e.ended /\ (\A h \in Kinds(e) : Begun(h) /\ InTime(h, st.c.timeout, Near)) => All(e) THEN {} ELSE {"P01.complete!"})
AskRules(st, e) == IF e.nack THEN {} ELSE UNION { Requests(h, e.end) : h \in Kinds(e) }

Viol(st, ev) ==
  CASE ev.op = "fin"     -> FileRules(st, ev) \cup AskRules(st, ev)
    [] ev.op = "crash"   -> {"crash"}
    [] ev.op = "exit"    -> {"crash"}
    [] ev.op = "harness" -> {"HARNESS"}
    [] OTHER             -> {}
Step(st, ev) == IF ev.op = "fin" THEN [ st EXCEPT !.done = @ \cup {ev.s} ] ELSE st
=============================================================================
