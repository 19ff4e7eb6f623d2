---------------------------- MODULE ConfigTrace ----------------------------
EXTENDS Config, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, viol
Init == /\ tid \in 1 .. Len(Traces) /\ l = 0 /\ viol = {} /\ st = InitSt(Traces[tid].cfg)
Next == LET T == Traces[tid].ev IN
        /\ l < Len(T) /\ l' = l + 1 /\ tid' = tid
        /\ viol' = Viol(st, T[l + 1])
        /\ st' = Step(st, T[l + 1])
Spec == Init /\ [][Next]_<< tid, l, st, viol >>
Where == << tid, l >>
None(S) == viol \cap S = {}
C01 == None({"C01.crash", "C01.missing", "C01.phantom", "C01.value", "C01.effect!", "crash"})
C02 == None({"C02.exit", "C02.effect!", "C02.start!", "C02.media!", "C02.stop!", "C02.identity", "C02.subscription", "C02.answer!", "C02.claims!", "crash"})
=============================================================================
