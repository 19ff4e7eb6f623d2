--------------------------- MODULE RecorderTrace ---------------------------
EXTENDS Recorder, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
CONSTANT P   \* the property being decided
Final(st, ev) == CASE P = "V01" -> V01Viol(st, ev) [] P = "V02" -> V02Viol(st, ev) [] P = "V03" -> V03Viol(st, ev)
                   [] P = "V04" -> V04Viol(st, ev) [] P = "A01" -> A01Viol(st, ev) [] P = "F03" -> F03Viol(st, ev)
                   [] P = "F04" -> F04Viol(st, ev) [] P = "F05" -> F05Viol(st, ev) [] P = "F06" -> F06Viol(st, ev) [] OTHER -> {}
VARIABLES tid, l, st, viol
Init == /\ tid \in 1 .. Len(Traces) /\ l = 0 /\ viol = {} /\ st = InitSt(Traces[tid].cfg)
Next == LET T == Traces[tid].ev IN
        /\ l < Len(T) /\ l' = l + 1 /\ tid' = tid
        /\ viol' = IF T[l + 1].op = "final" THEN Final(st, T[l + 1]) ELSE Viol(st, T[l + 1])
        /\ st' = Step(st, T[l + 1])
Spec == Init /\ [][Next]_<< tid, l, st, viol >>
Where == << tid, l >>
None(S) == viol \cap S = {}
V01 == None({"V01.unaltered", "V01.whole", "V01.once", "V01.crash"})
V02 == None({"V02.first", "V02.flag", "V02.chain", "V02.known", "V02.crash"})
V03 == None({"V03.complete", "V03.crash"})
V04 == None({"V04.zero", "V04.time", "V04.order", "V04.crash"})
V05 == None({"V05.must", "V05.rate", "V05.need", "V05.crash"})
A01 == None({"A01.unaltered", "A01.order", "A01.complete", "A01.time", "A01.start", "A01.crash"})
F03 == None({"F03.wellformed", "F03.tracks", "F03.header", "F03.size", "F03.crash"})
F04 == None({"F04.prefix", "F04.playable", "F04.timely", "F04.crash"})
F05 == None({"F05.final", "F05.time", "F05.close", "F05.crash"})
F06 == None({"F06.unasked", "F06.exists", "F06.wellformed", "F06.count", "F06.frames", "F06.times", "F06.size", "F06.private", "F06.crash"})
=============================================================================
