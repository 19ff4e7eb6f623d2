---------------------------- MODULE GenRecorder ----------------------------
(* Schedules for the real recorder: behaviours of the design with audio beside it, printed when all frames were sent. *)
EXTENDS MC_Recorder
VARIABLES hist, sampler, audio, na
gvars == << vars, hist, sampler, audio, na >>
Placeholder == [ i \in 1 .. NF |-> [ key |-> TRUE, k |-> 1, bad |-> FALSE ] ]
GenInit == /\ frames = Placeholder /\ numbered = TRUE
           /\ st = InitSt(Cfg(frames, numbered)) /\ ev = [ op |-> "none" ] /\ now = 5000
           /\ fi = 1 /\ pi = 1 /\ seq = 0 /\ pads = 0 /\ bads = 0 /\ ticks = 0 /\ pendNote = FALSE /\ lost = 0
           /\ m = M0 /\ out = <<>> /\ hist = <<>> /\ na = -1
           /\ sampler = "custom" /\ audio = FALSE
\* the sender, chosen at random
Choose == /\ na = -1 /\ na' = 0
          /\ \E fr \in { [ i \in 1 .. NF |-> [ key |-> RandomElement(1 .. 4) = 1 \/ (i = 1 /\ RandomElement(1 .. 2) = 1), k |-> RandomElement(1 .. MaxK), bad |-> RandomElement(1 .. 40 + na) = 1 ] ] } :
             \E nb \in { RandomElement(BOOLEAN) } : frames' = fr /\ numbered' = nb /\ st' = InitSt(Cfg(fr, nb))
          /\ sampler' \in {RandomElement({"custom", "custom2", "builtin"})} /\ audio' \in {RandomElement(BOOLEAN)}
          /\ UNCHANGED << ev, now, fi, pi, seq, pads, bads, ticks, pendNote, lost, m, out, hist >>
\* padding in the middle of a frame is for the default sampler
Padded == Pad /\ (sampler # "builtin" \/ pi = 1)
H(e) == CASE e.op = "v" /\ e.f > 0  -> << [ op |-> "v", f |-> e.f, p |-> e.part, l |-> 0 ] >>
          [] e.op = "v" /\ e.f = 0  -> << [ op |-> "pad", l |-> 0 ] >>
          [] e.op = "v" /\ e.f = -1 -> << [ op |-> "bad", l |-> 0 ] >>
          [] e.op = "lost" -> << [ op |-> "v", f |-> e.f, p |-> e.p, l |-> IF e.n THEN 2 ELSE 1 ] >>
          [] e.op = "tick" -> << [ op |-> "tick", d |-> e.d ] >>
          [] OTHER -> <<>>
Video == (Deliver \/ Deliver \/ Deliver \/ Deliver \/ Deliver \/ Lost \/ LostNoted \/ Note \/ Note \/ Padded \/ Bad \/ Tick)
         /\ hist' = hist \o H(ev') /\ UNCHANGED << sampler, audio, na >>
Audio(l) == audio /\ na < 2 * NF /\ na' = na + 1 /\ hist' = Append(hist, [ op |-> "a", l |-> l ]) /\ UNCHANGED << vars, sampler, audio >>
GenNext == Choose \/ (na >= 0 /\ (Video \/ Video \/ Video \/ Video \/ Audio(0) \/ Audio(0) \/ Audio(0) \/ Audio(1)))
GenSpec == GenInit /\ [][GenNext]_gvars
Emit == fi # NF + 1 \/ pendNote \/ PrintT("GEN:" \o ToJson([ sampler |-> IF sampler = "builtin" THEN "builtin" ELSE "custom", video |-> TRUE, audio |-> audio,
          pid |-> IF numbered THEN 1 ELSE 0, frames |-> frames, ops |-> hist ]))
Stop == fi <= NF
Ok == V01Viol(st, File) \cup V02Viol(st, File) \cup V03Viol(st, File) = {}
=============================================================================
