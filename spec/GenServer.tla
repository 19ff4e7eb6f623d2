------------------------------ MODULE GenServer ------------------------------
(* Schedules for the real recorder: behaviours of the design; each request is issued in the situation in which the  *)
(* behaviour has it (at rest, while requests are being worked at, after the peer left, while a lost session ends).   *)
EXTENDS MC_Server
VARIABLE hist
Step1(a, s, n, k, fast) == [ a |-> a, s |-> IF s = "a" THEN 1 ELSE 2, n |-> n, k |-> k, on |-> TRUE, ms |-> 0, fast |-> fast ]
NameNo(n) == CASE n = 1 -> 1 [] n = 2 -> 4 [] n = 3 -> 2 [] n = 4 -> 11 [] n = 5 -> 8 [] OTHER -> 10
\* what has to be waited for before the next request
Pre == IF Rest /\ \A q \in DOMAIN ses : ~(ses[q].gone /\ ses[q].st # "ended")
       THEN << Step1(IF \E q \in DOMAIN ses : ses[q].gone THEN "settle" ELSE "await", "a", 0, "", FALSE) >>
       ELSE LET E == { q \in DOMAIN ses : ses[q].gone /\ ses[q].thr \in {"close", "say", "forget"} } IN
            IF E # {} THEN LET q == CHOOSE x \in E : TRUE IN << Step1("saw", ses[q].s, 0, "", FALSE) >> ELSE <<>>
Good == {"v", "a", "av", "av", "legacy", "both", "v"}
Poor == {"bad", "bothbad", "nosdp", "adapter", "lkempty"}
GenInit == Init /\ hist = <<>>
GStart == \E s \in {RandomElement(IF nreq < 0 THEN {} ELSE Ids)}, n \in {RandomElement(IF nreq < 0 THEN {} ELSE Names)}, o \in {IF RandomElement(1 .. (5 + 0 * nreq)) = 1 THEN "bad" ELSE "good"} :
            /\ Start(s, n, o)
            /\ hist' = hist \o Pre \o << Step1("start", s, NameNo(n), RandomElement(IF o = "good" THEN Good ELSE Poor), TRUE) >>
GStop == \E s \in {RandomElement(IF nreq < 0 THEN {} ELSE Ids)} : Stop(s) /\ hist' = hist \o Pre \o << Step1("stop", s, 0, "", TRUE) >>
GPeer == \E q \in DOMAIN ses :
            \/ Connect(q) /\ hist' = hist
            \/ Media(q) /\ hist' = Append(hist, Step1("connect", ses[q].s, 0, "", FALSE))
            \/ Leave(q) /\ hist' = Append(hist, Step1(RandomElement({"mute", "close", "mute"}), ses[q].s, 0, "", FALSE))
GInt == (Control \/ Transport \/ Work) /\ hist' = hist
GenNext == GStart \/ GStop \/ GPeer \/ GPeer \/ GPeer \/ GInt \/ GInt \/ GInt \/ GInt \/ GInt \/ GInt
GenSpec == GenInit /\ [][GenNext]_<< vars, hist >>
Emit == ~(nreq = NReq /\ Rest) \/ PrintT("GEN:" \o ToJson(hist))
Going == ~(nreq = NReq /\ Rest)
=============================================================================
