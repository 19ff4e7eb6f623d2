---------------------------- MODULE ServerTrace ----------------------------
EXTENDS Server, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, viol
Init == /\ tid \in 1 .. Len(Traces) /\ l = 0 /\ viol = {} /\ st = InitSt(Traces[tid].cfg)
Next == LET T == Traces[tid].ev IN
        /\ l < Len(T) /\ l' = l + 1 /\ tid' = tid
        /\ viol' = Viol(st, T[l + 1])
        /\ st' = Step(st, T[l + 1])
Spec == Init /\ [][Next]_<< tid, l, st, viol >>
Where == << tid, l >>
None(S) == viol \cap S = {}
S01 == None({"S01.unasked", "S01.form", "S01.answer", "S01.truth", "S01.path", "S01.connect!", "crash", "HARNESS"})
S02 == None({"S02.exclusive", "S02.free", "S02.media", "S02.disturb", "crash", "HARNESS"})
S03 == None({"S03.answer", "S03.unasked", "S03.file", "S03.media!", "S03.final", "crash", "HARNESS"})
S04 == None({"S04.once", "S04.unstarted", "S04.cause", "S04.after", "crash", "HARNESS"})
S05 == None({"S05.stay", "S05.reason", "S05.file", "S05.media!", "S05.ends!", "S05.final", "crash", "HARNESS"})
S06 == None({"S06.gauge", "crash", "HARNESS"})
S07 == None({"S07.reply", "crash", "HARNESS"})
S08 == None({"S08.instance", "S08.version", "S08.time", "S08.early", "S08.unasked", "S08.hello", "S08.answer", "crash", "HARNESS"})
S09 == None({"S09.start!", "S09.stop!", "S09.session", "S09.form", "S09.alternate", "S09.back", "S09.phantom", "S09.phantom!", "S09.spurious!", "S09.time", "crash", "HARNESS"})
S10 == None({"S10.close!", "S10.leak!", "crash", "HARNESS"})
S11 == None({"S11.accept", "S11.refuse", "S11.nothing", "crash", "HARNESS"})
S12 == None({"S12.range", "S12.sections", "crash", "HARNESS"})
R01 == None({"R01.once", "R01.order", "R01.channel", "R01.unknown", "crash", "HARNESS"})
F01 == None({"F01.refuse", "F01.path", "F01.stray", "crash", "HARNESS"})
F02 == None({"F02.overwrite", "F02.free", "crash", "HARNESS"})
F05 == None({"F05.event", "crash", "HARNESS"})
ALL == viol = {}
=============================================================================
