---------------------------- MODULE MC_Recorder ----------------------------
(* The design of the default sampler, as a machine of its own, against the properties in Recorder.tla: all loss     *)
(* patterns, notified or not, with padding, malformed packets and time, over all frame structures of bounded size. *)
EXTENDS Recorder, Json
CONSTANTS NF, MaxK, MaxPads, MaxBads, MaxTicks, MaxInvalid
VARIABLES frames, numbered, st, ev, now, fi, pi, seq, pads, bads, ticks, pendNote, lost,
          m,    \* the sampler: hasKey, seen, cur (frame in assembly, 0 none), first, next (expected number), pid, lastReq
          out   \* frames written
vars == << frames, numbered, st, ev, now, fi, pi, seq, pads, bads, ticks, pendNote, lost, m, out >>

Cfg(fr, nb) == [ sampler |-> "custom", video |-> TRUE, audio |-> FALSE, ivf |-> FALSE, pid |-> IF nb THEN 15 ELSE 0, vq |-> 4, aq |-> 4,
                 frames |-> [ i \in 1 .. NF |-> [ key |-> fr[i].key, k |-> fr[i].k, bad |-> fr[i].bad, ms |-> 33 * i, rem |-> 0, w |-> 16, h |-> 16 ] ],
                 snd |-> <<>>, tag |-> "", disk |-> FALSE, race |-> FALSE, late |-> 0 ]
M0 == [ hasKey |-> FALSE, seen |-> FALSE, cur |-> 0, next |-> -1, pid |-> 0, lastReq |-> -5000, at |-> 0 ]

Init == /\ frames \in { fr \in [ 1 .. NF -> [ key : BOOLEAN, k : 1 .. MaxK, bad : BOOLEAN ] ] : Cardinality({ i \in 1 .. NF : fr[i].bad }) <= MaxInvalid } /\ numbered \in BOOLEAN
        /\ st = InitSt(Cfg(frames, numbered)) /\ ev = [ op |-> "none" ] /\ now = 5000
        /\ fi = 1 /\ pi = 1 /\ seq = 0 /\ pads = 0 /\ bads = 0 /\ ticks = 0 /\ pendNote = FALSE /\ lost = 0
        /\ m = M0 /\ out = <<>>

\* the machine asks for a keyframe, unless it did within the last second
Ask(x) == IF now - x.lastReq > 1000 THEN [ x EXCEPT !.lastReq = now ] ELSE x
Drop(x) == [ x EXCEPT !.cur = 0 ]
Lose(x) == Ask([ x EXCEPT !.cur = 0, !.hasKey = FALSE ])

\* one packet: <<next machine, frame written or 0>>
MachV(x0, f, p) ==
  LET x1 == IF x0.next >= 0 /\ seq # x0.next /\ x0.cur # 0 THEN Lose(x0) ELSE x0
      x2 == [ x1 EXCEPT !.next = seq + 1 ]
      key == f > 0 /\ frames[f].key /\ p = 1
      start == f > 0 /\ p = 1
  IN IF f = 0 THEN << x2, 0 >>
     ELSE IF f = -1 THEN << Ask([ x2 EXCEPT !.hasKey = FALSE ]), 0 >>
     ELSE LET x3 == IF start /\ x2.cur # 0 THEN Lose(x2) ELSE x2
              gap == start /\ numbered /\ x3.pid # 0 /\ f # x3.pid + 1 IN
          IF gap /\ ~key THEN << Ask([ x3 EXCEPT !.hasKey = FALSE ]), 0 >>
          ELSE IF x3.cur # 0 /\ now - x3.at > 2000 THEN << Lose(x3), 0 >>
          ELSE IF ~x3.hasKey /\ ~key THEN << Drop(IF x3.seen THEN x3 ELSE Ask(x3)), 0 >>
          ELSE IF x3.cur = 0 /\ ~start THEN << Lose(x3), 0 >>
          ELSE LET x4 == [ x3 EXCEPT !.hasKey = TRUE, !.seen = TRUE, !.cur = f, !.at = IF start THEN now ELSE @ ] IN
               IF p = frames[f].k /\ frames[f].bad
               THEN << Lose([ x4 EXCEPT !.pid = f ]), 0 >>
               ELSE IF p = frames[f].k
               THEN << [ x4 EXCEPT !.pid = f, !.cur = 0 ], f >>
               ELSE << x4, 0 >>

Push(f, p) ==
  LET r == MachV(m, f, p)
      e == [ op |-> "v", seq |-> seq, f |-> f, part |-> p, k |-> IF f > 0 THEN frames[f].k ELSE 0, key |-> f > 0 /\ frames[f].key,
             req |-> IF r[1].lastReq # m.lastReq THEN 1 ELSE 0, now |-> now, race |-> FALSE ]
      written == r[2] # 0 /\ (out # <<>> \/ frames[r[2]].key)
  IN  /\ ev' = e /\ st' = Step(st, e) /\ m' = r[1] /\ out' = IF written THEN Append(out, r[2]) ELSE out
      /\ seq' = seq + 1 /\ pendNote' = FALSE /\ lost' = 0

\* a notification leaves this machine alone: what is missing shows by the next number
Note == /\ pendNote /\ pendNote' = FALSE
        /\ LET e == [ op |-> "notify", seq |-> seq - 1, req |-> 0, now |-> now ] IN ev' = e /\ st' = Step(st, e)
        /\ UNCHANGED << frames, numbered, now, fi, pi, seq, pads, bads, ticks, lost, m, out >>
Advance == IF pi = frames[fi].k THEN fi' = fi + 1 /\ pi' = 1 ELSE fi' = fi /\ pi' = pi + 1
Deliver == /\ ~pendNote /\ fi <= NF /\ Push(fi, pi) /\ Advance /\ UNCHANGED << frames, numbered, now, pads, bads, ticks >>
LoseIt(n) == /\ fi <= NF /\ Advance /\ seq' = seq + 1 /\ pendNote' = (n \/ pendNote) /\ lost' = lost + 1 /\ ev' = [ op |-> "lost", f |-> fi, p |-> pi, n |-> n ]
             /\ UNCHANGED << frames, numbered, st, now, pads, bads, ticks, m, out >>
Lost == ~pendNote /\ LoseIt(FALSE)
LostNoted == ~pendNote /\ LoseIt(TRUE)
Pad == /\ ~pendNote /\ pads < MaxPads /\ pads' = pads + 1 /\ Push(0, 0) /\ UNCHANGED << frames, numbered, now, fi, pi, bads, ticks >>
Bad == /\ ~pendNote /\ bads < MaxBads /\ bads' = bads + 1 /\ Push(-1, 0) /\ UNCHANGED << frames, numbered, now, fi, pi, pads, ticks >>
Tick == /\ ticks < MaxTicks /\ ticks' = ticks + 1 /\ (\E d \in {1001, 2001} : now' = now + d /\ ev' = [ op |-> "tick", d |-> d ])
        /\ UNCHANGED << frames, numbered, st, fi, pi, seq, pads, bads, pendNote, lost, m, out >>
Next == Deliver \/ Lost \/ LostNoted \/ Note \/ Pad \/ Bad \/ Tick
Spec == Init /\ [][Next]_vars

\* the file as it stands
File == [ op |-> "final", vb |-> [ i \in DOMAIN out |-> [ f |-> out[i], key |-> frames[out[i]].key, t |-> 33 * (out[i] - out[1]) ] ], ab |-> <<>> ]
V01 == V01Viol(st, File) = {}
V02 == V02Viol(st, File) = {}
V03 == V03Viol(st, File) = {}
V04 == V04Viol(st, File) = {}
\* the request rules are those of an event in the state before it
V05 == [][ev' # ev /\ ev'.op \in {"v", "notify"} => Viol(st, ev') = {}]_vars
=============================================================================
