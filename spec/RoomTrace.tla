---------------------------- MODULE RoomTrace ----------------------------
(* What the server of the rooms and the control channel saw: Room.tla and Server.tla judge it together.  *)
EXTENDS Room, Json, IOUtils
S == INSTANCE Server
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, sv, viol
Init == /\ tid \in 1 .. Len(Traces) /\ l = 0 /\ viol = {} /\ st = InitSt(Traces[tid].cfg) /\ sv = S!InitSt(Traces[tid].cfg)
\* ports are the library's own choice
NotHere == {"S12.range", "S12.sections"}
Next == LET T == Traces[tid].ev IN
        /\ l < Len(T) /\ l' = l + 1 /\ tid' = tid
        /\ viol' = Viol(st, T[l + 1]) \cup (S!Viol(sv, T[l + 1]) \ NotHere)
        /\ st' = Step(st, T[l + 1])
        /\ sv' = S!Step(sv, T[l + 1])
Spec == Init /\ [][Next]_<< tid, l, st, sv, viol >>
Where == << tid, l >>
None(R) == viol \cap R = {}
L01 == None({"L01.room", "L01.subs", "L01.subs!", "L01.media", "L01.complete!", "L01.prompt!", "L01.signal", "S02.media", "S02.disturb", "crash", "HARNESS"})
L02 == None({"L02.leave!", "L02.ends!", "L02.fail", "L02.file", "L02.once", "L02.stay", "L02.nothing",
             "S01.unasked", "S01.form", "S01.answer", "S01.truth", "S02.exclusive", "S02.free", "S03.answer", "S03.unasked", "S03.media!",
             "S04.once", "S04.unstarted", "S04.cause", "S04.after", "S05.stay", "S05.reason", "S05.ends!", "S06.gauge",
             "S09.start!", "S09.stop!", "S09.form", "S09.alternate", "S09.phantom", "S10.close!", "S10.leak!", "S11.refuse", "F02.overwrite", "F02.free", "F05.event", "crash", "HARNESS"})
ALL == viol = {}
=============================================================================
