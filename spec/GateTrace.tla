---------------------------- MODULE GateTrace ----------------------------
EXTENDS Gate, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, viol
Init == /\ tid \in 1 .. Len(Traces) /\ l = 0 /\ viol = {} /\ st = InitSt(Traces[tid].cfg)
Next == LET T == Traces[tid].ev IN
        /\ l < Len(T) /\ l' = l + 1 /\ tid' = tid
        /\ viol' = Viol(st, T[l + 1])
        /\ st' = Step(st, T[l + 1])
Spec == Init /\ [][Next]_<< tid, l, st, viol >>
Where == << tid, l >>
None(S) == viol \cap S = {}
H01 == None({"H01.exit", "H01.once", "H01.reply", "H01.own", "H01.malformed", "H01.answer", "H01.refuse", "H01.hasty", "H01.wait!", "H01.media!", "crash"})
=============================================================================
