----------------------------- MODULE NackTrace -----------------------------
EXTENDS Nack, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, viol
Init == tid \in 1 .. Len(Traces) /\ l = 0 /\ viol = {} /\ st = InitSt(Traces[tid].cfg)
Next == LET T == Traces[tid].ev IN
        /\ l < Len(T) /\ l' = l + 1 /\ tid' = tid
        /\ viol' = Viol(st, T[l + 1])
        /\ st' = Step(st, T[l + 1])
Spec == Init /\ [][Next]_<< tid, l, st, viol >>
J05 == viol \cap {"J05.encode", "J05.roundtrip", "J05.count", "J05.decode", "J05.crash"} = {}
=============================================================================
