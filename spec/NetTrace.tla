------------------------------ MODULE NetTrace ------------------------------
EXTENDS Net, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, viol
Init == /\ tid \in 1 .. Len(Traces) /\ l = 0 /\ viol = {} /\ st = InitSt(Traces[tid].cfg)
Next == LET T == Traces[tid].ev IN
        /\ l < Len(T) /\ l' = l + 1 /\ tid' = tid
        /\ viol' = Viol(st, T[l + 1])
        /\ st' = Step(st, T[l + 1])
Spec == Init /\ [][Next]_<< tid, l, st, viol >>
Where == << tid, l >>
None(S) == viol \cap S = {}
N01 == None({"N01.phantom", "N01.bound", "N01.never!", "N01.early!", "N01.ask!", "N01.again!", "P01.complete", "P01.complete!", "crash", "HARNESS"})
P01 == None({"P01.own", "P01.order", "P01.wf", "P01.key", "P01.decodable", "P01.complete", "P01.complete!", "crash", "HARNESS"})
=============================================================================
