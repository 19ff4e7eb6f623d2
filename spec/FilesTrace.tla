----------------------------- MODULE FilesTrace -----------------------------
EXTENDS Files, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, viol
Init == /\ tid \in 1 .. Len(Traces) /\ l = 0 /\ viol = {} /\ st = InitSt(Traces[tid].cfg)
Next == LET T == Traces[tid].ev IN
        /\ l < Len(T) /\ l' = l + 1 /\ tid' = tid
        /\ viol' = Viol(st, T[l + 1])
        /\ st' = Step(st, T[l + 1])
Spec == Init /\ [][Next]_<< tid, l, st, viol >>
Where == << tid, l >>
None(S) == viol \cap S = {}
F01 == None({"F01.refuse", "F01.path", "F01.stray", "F01.mode", "F01.dirs", "F01.deny", "F01.written", "crash"})
F02 == None({"F02.overwrite", "F02.spoil", "F02.bytes", "F02.free", "crash"})
F06 == None({"F06.missing", "F06.mode", "crash"})
=============================================================================
