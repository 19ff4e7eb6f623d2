------------------------- MODULE JitterBufferTrace -------------------------
EXTENDS JitterBuffer, Json, IOUtils
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, viol
Init == /\ tid \in 1 .. Len(Traces) /\ l = 0 /\ viol = {}
        /\ st = InitSt(Traces[tid].cfg.size, Traces[tid].cfg.timeout)
Next == LET T == Traces[tid].ev IN
        /\ l < Len(T) /\ l' = l + 1 /\ tid' = tid
        /\ viol' = Viol(st, T[l + 1])
        /\ st' = Step(st, T[l + 1])
Spec == Init /\ [][Next]_<< tid, l, st, viol >>
J01 == \A v \in viol : v \notin {"J01.known", "J01.order", "J01.crash"}
J02 == \A v \in viol : v \notin {"J02.release", "J02.flag", "J02.name", "J02.crash"}
=============================================================================
