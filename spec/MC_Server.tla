------------------------------ MODULE MC_Server ------------------------------
(* The design of the recorder's sessions as a machine of its own, in lock-step with the properties in Server.tla:   *)
(* one control thread takes the requests in turn; the transport of each session may end it at any moment; each      *)
(* session has a lock.  Every interleaving of their steps is explored.  Weak # "" leaves one safeguard out: the     *)
(* properties must then notice (see MC_Server_weak*.cfg in the thorough checks).                                    *)
EXTENDS Server, Json
CONSTANTS Ids, Names, Offers, NReq, NLeave, NFlow, Weak
VARIABLES chan, ctl, map, ses, claims, exists, gauge, nreq, nleave, nflow, st, viol, ev
vars == << chan, ctl, map, ses, claims, exists, gauge, nreq, nleave, nflow, st, viol, ev >>
mach == << chan, ctl, map, ses, claims, exists, gauge, nreq, nleave, nflow >>

Cfg == [ dir |-> << "rec" >>, devnull |-> FALSE, ivf |-> FALSE, lo |-> 1, hi |-> 9, noports |-> FALSE, ver |-> "v" ]
FileOf(n) == CASE n = 1 -> << "r1.webm" >> [] n = 2 -> << ".", "r1.webm" >> [] n = 3 -> << "r2.webm" >>
               [] n = 4 -> << "..", "r1.webm" >> [] n = 5 -> << "old.webm" >> [] OTHER -> << "sub", "..", "r2.webm" >>
Idle == [ at |-> "idle", s |-> "", n |-> 1, o |-> "good", q |-> 0, kind |-> "" ]
Init == /\ chan = <<>> /\ ctl = Idle /\ map = EmptyF /\ ses = EmptyF
        /\ claims = {} /\ exists = { Norm(Cfg.dir, << "old.webm" >>) } /\ gauge = 0
        /\ nreq = 0 /\ nleave = 0 /\ nflow = 0
        /\ st = [ InitSt(Cfg) EXCEPT !.hello = TRUE, !.subbed = TRUE ] /\ viol = {} /\ ev = [ op |-> "none" ]

Emit1(e) == /\ ev' = e /\ viol' = Viol(st, e) /\ st' = Step(st, e)
Quiet == ev' = [ op |-> "none" ] /\ viol' = {} /\ UNCHANGED st
F(q) == [ exists |-> ses[q].file, wf |-> TRUE, hdr |-> TRUE, own |-> TRUE, ordered |-> TRUE, lastv |-> 0, lasta |-> 0, nv |-> 0, na |-> 0 ]
Resp(s, ok, p) == [ op |-> "pub", ch |-> TRUE, kind |-> "resp", t |-> 0, s |-> s, ok |-> ok, failed |-> ~ok, err |-> ~ok, sdp |-> ok, hasfile |-> ok,
                    file |-> p, ports |-> <<>>, secs |-> 1 ]
Stopped(q, r) == [ op |-> "pub", ch |-> TRUE, kind |-> "stopped", t |-> 0, s |-> ses[q].s, reason |-> r, ts |-> 0, f |-> F(q) ]

\* ---- the requester and the peers -------------------------------------------------------------------
Start(s, n, o) == /\ nreq < NReq /\ nreq' = nreq + 1
                  /\ chan' = Append(chan, [ Idle EXCEPT !.at = "go", !.kind = "start", !.s = s, !.n = n, !.o = o, !.q = nreq + 1 ])
                  /\ Emit1([ op |-> "req", kind |-> "start", t |-> 0, s |-> s, q |-> nreq + 1, file |-> FileOf(n), ext |-> ".webm", adapter |-> "",
                             new |-> o, legacy |-> "none", lkok |-> FALSE, secs |-> 1, v |-> 1, a |-> 0 ])
                  /\ UNCHANGED << ctl, map, ses, claims, exists, gauge, nleave, nflow >>
Stop(s) == /\ nreq < NReq /\ nreq' = nreq + 1 /\ chan' = Append(chan, [ Idle EXCEPT !.at = "go", !.kind = "stop", !.s = s ])
           /\ Emit1([ op |-> "req", kind |-> "stop", t |-> 0, s |-> s ])
           /\ UNCHANGED << ctl, map, ses, claims, exists, gauge, nleave, nflow >>
Live(q) == q \in DOMAIN ses /\ ses[q].st = "active"
\* the peer learns of the answer only after it was published
Connect(q) == /\ Live(q) /\ ~ses[q].conn /\ ~ses[q].gone
              /\ ses' = [ ses EXCEPT ![q].conn = TRUE ]
              /\ Emit1([ op |-> "peer", t |-> 0, s |-> ses[q].s, q |-> q, what |-> "connected" ])
              /\ UNCHANGED << chan, ctl, map, claims, exists, gauge, nreq, nleave, nflow >>
Media(q) == /\ Live(q) /\ ses[q].conn /\ ~ses[q].gone /\ ~ses[q].on
            /\ ses' = [ ses EXCEPT ![q].on = TRUE ]
            /\ Emit1([ op |-> "media", t |-> 0, s |-> ses[q].s, q |-> q, on |-> TRUE ])
            /\ UNCHANGED << chan, ctl, map, claims, exists, gauge, nreq, nleave, nflow >>
Leave(q) == /\ nleave < NLeave /\ Live(q) /\ ~ses[q].gone
            /\ nleave' = nleave + 1
            /\ ses' = [ ses EXCEPT ![q].gone = TRUE, ![q].on = FALSE ]
            /\ Emit1([ op |-> "peer", t |-> 0, s |-> ses[q].s, q |-> q, what |-> "close" ])
            /\ UNCHANGED << chan, ctl, map, claims, exists, gauge, nreq, nflow >>
Env == \/ \E s \in Ids, n \in Names, o \in Offers : Start(s, n, o)
       \/ \E s \in Ids : Stop(s)
       \/ \E q \in DOMAIN ses : Connect(q) \/ Media(q) \/ Leave(q)

\* ---- recording ---------------------------------------------------------------------------------------
\* a keyframe arrives: the file comes into being
Write(q) == /\ Live(q) /\ ses[q].on /\ ~ses[q].file /\ ses[q].lock = "free"
            /\ ses' = [ ses EXCEPT ![q].file = TRUE ] /\ exists' = exists \cup {ses[q].path}
            /\ Quiet /\ UNCHANGED << chan, ctl, map, claims, gauge, nreq, nleave, nflow >>
FlowEv(q) == /\ q \in DOMAIN ses /\ ses[q].flowing # ses[q].on /\ ses[q].conn /\ nflow < NFlow
             /\ Weak = "flow" \/ (ses[q].lock = "free" /\ Live(q))
             /\ nflow' = nflow + 1
             /\ ses' = [ ses EXCEPT ![q].flowing = ~@ ]
             /\ Emit1([ op |-> "pub", ch |-> TRUE, kind |-> "flow", t |-> 0, s |-> ses[q].s, st |-> IF ses[q].flowing THEN "not_flowing" ELSE "flowing",
                        ts |-> 0, num |-> TRUE, lastv |-> 0, lasta |-> 0 ])
             /\ UNCHANGED << chan, ctl, map, claims, exists, gauge, nreq, nleave >>

\* ---- the control thread ------------------------------------------------------------------------------
Take == /\ ctl.at = "idle" /\ chan # <<>> /\ ctl' = Head(chan) /\ chan' = Tail(chan)
        /\ Quiet /\ UNCHANGED << map, ses, claims, exists, gauge, nreq, nleave, nflow >>
To(a) == ctl' = [ ctl EXCEPT !.at = a ]
Fail == Emit1(Resp(ctl.s, FALSE, <<>>)) /\ ctl' = Idle
Has(s) == s \in DOMAIN map
\* starting: an id that is taken, if its session is not about to end (which is waited for)
Check == /\ ctl.at = "go" /\ ctl.kind = "start"
         /\ IF Has(ctl.s)
            THEN /\ ses[map[ctl.s]].lock = "free" \/ Weak = "forget"
                 /\ IF ses[map[ctl.s]].st # "ended" THEN Fail ELSE To("open") /\ Quiet
            ELSE To("open") /\ Quiet
         /\ UNCHANGED << chan, map, ses, claims, exists, gauge, nreq, nleave, nflow >>
P == Norm(Cfg.dir, FileOf(ctl.n))
Open == /\ ctl.at = "open"
        /\ IF ~Inside(Cfg.dir, P) \/ (P \in claims /\ Weak # "claims") \/ P \in exists
           THEN Fail /\ UNCHANGED << claims, ses, map >>
           ELSE /\ claims' = claims \cup {P} /\ To("init") /\ Quiet
                /\ ses' = (ctl.q :> [ s |-> ctl.s, path |-> P, st |-> "new", lock |-> "ctl", file |-> FALSE, gone |-> FALSE, conn |-> FALSE, on |-> FALSE,
                                      flowing |-> FALSE, thr |-> "none" ]) @@ ses
                /\ map' = (ctl.s :> ctl.q) @@ map
        /\ UNCHANGED << chan, exists, gauge, nreq, nleave, nflow >>
Negotiate == /\ ctl.at = "init"
             /\ IF ctl.o = "good"
                THEN /\ gauge' = gauge + 1 /\ Emit1(Resp(ctl.s, TRUE, P)) /\ ctl' = Idle
                     /\ ses' = [ ses EXCEPT ![ctl.q].st = "active", ![ctl.q].lock = "free" ]
                     /\ UNCHANGED << claims, map >>
                ELSE /\ claims' = claims \ {P} /\ map' = Without(map, ctl.s) /\ To("fail") /\ Quiet
                     /\ ses' = [ ses EXCEPT ![ctl.q].st = "ended", ![ctl.q].lock = "free" ]
                     /\ UNCHANGED gauge
             /\ UNCHANGED << chan, exists, nreq, nleave, nflow >>
Failed == /\ ctl.at = "fail" /\ Fail /\ UNCHANGED << chan, map, ses, claims, exists, gauge, nreq, nleave, nflow >>

\* ending a session, by whichever thread comes first: mark, close the file, announce, forget
Mark1(q, th) == /\ ses[q].lock = "free" /\ ses[q].st = "active"
                /\ ses' = [ ses EXCEPT ![q].st = "ended", ![q].lock = th ] /\ gauge' = gauge - 1
Close(q) == claims' = claims \ {ses[q].path}
Forget(q) == /\ map' = IF Has(ses[q].s) /\ (map[ses[q].s] = q \/ Weak = "forget") THEN Without(map, ses[q].s) ELSE map
             /\ ses' = [ ses EXCEPT ![q].lock = "free", ![q].thr = IF @ = "forget" THEN "done" ELSE @ ]
Halt == /\ ctl.at = "go" /\ ctl.kind = "stop"
        /\ IF ~Has(ctl.s) THEN ctl' = Idle /\ UNCHANGED << ses, gauge >>
           ELSE LET q == map[ctl.s] IN
                IF ses[q].st = "ended"
                THEN ses[q].lock = "free" /\ ctl' = Idle /\ UNCHANGED << ses, gauge >>
                ELSE Mark1(q, "ctl") /\ ctl' = [ ctl EXCEPT !.at = "close", !.q = q ]
        /\ Quiet /\ UNCHANGED << chan, map, claims, exists, nreq, nleave, nflow >>
CClose == /\ ctl.at = "close" /\ Close(ctl.q) /\ To("say") /\ Quiet
          /\ UNCHANGED << chan, map, ses, exists, gauge, nreq, nleave, nflow >>
CSay == /\ ctl.at = "say" /\ Emit1(Stopped(ctl.q, "stopped")) /\ To("forget")
        /\ UNCHANGED << chan, map, ses, claims, exists, gauge, nreq, nleave, nflow >>
CForget == /\ ctl.at = "forget" /\ Forget(ctl.q) /\ ctl' = Idle /\ Quiet
           /\ UNCHANGED << chan, claims, exists, gauge, nreq, nleave, nflow >>

\* ---- the transport of a session ------------------------------------------------------------------------
TMark(q) == /\ ses[q].gone /\ ses[q].thr = "none"
            /\ IF ses[q].st = "ended" /\ Weak # "twice"
               THEN ses[q].lock = "free" /\ ses' = [ ses EXCEPT ![q].thr = "done" ] /\ UNCHANGED gauge
               ELSE /\ ses[q].lock = "free"
                    /\ ses' = [ ses EXCEPT ![q].st = "ended", ![q].lock = "tr", ![q].thr = "close" ] /\ gauge' = gauge - 1
            /\ Quiet /\ UNCHANGED << chan, ctl, map, claims, exists, nreq, nleave, nflow >>
TClose(q) == /\ ses[q].thr = "close" /\ Close(q) /\ ses' = [ ses EXCEPT ![q].thr = "say" ] /\ Quiet
             /\ UNCHANGED << chan, ctl, map, exists, gauge, nreq, nleave, nflow >>
TSay(q) == /\ ses[q].thr = "say" /\ Emit1(Stopped(q, "disconnected")) /\ ses' = [ ses EXCEPT ![q].thr = "forget" ]
           /\ UNCHANGED << chan, ctl, map, claims, exists, gauge, nreq, nleave, nflow >>
TForget(q) == /\ ses[q].thr = "forget" /\ Forget(q) /\ Quiet
              /\ UNCHANGED << chan, ctl, claims, exists, gauge, nreq, nleave, nflow >>

Control == Take \/ Check \/ Open \/ Negotiate \/ Failed \/ Halt \/ CClose \/ CSay \/ CForget
Transport == \E q \in DOMAIN ses : TMark(q) \/ TClose(q) \/ TSay(q) \/ TForget(q)
Work == \E q \in DOMAIN ses : Write(q) \/ FlowEv(q)
Next == Env \/ Control \/ Transport \/ Work
Spec == Init /\ [][Next]_vars
View == << mach, st, viol >>

Timeless == { x \in viol : x \notin {"S05.ends!", "S10.close!", "S03.media!", "S05.media!"} }
Ok == Timeless = {}
\* at rest everything was answered, and every session whose transport was lost has been announced as ended
Rest == ctl.at = "idle" /\ chan = <<>> /\ \A q \in DOMAIN ses : ses[q].lock = "free" /\ (ses[q].gone => ses[q].thr = "done")
AtRest == Rest => /\ SettledViol(st, [ op |-> "settled", t |-> 0 ]) \ {"S10.close!"} = {}
                  /\ IdleViol(st, [ op |-> "idle", gauge |-> gauge, socks |-> <<>>, fds |-> 0, bfds |-> 0, gor |-> 0, bgor |-> 0 ]) = {}
                  /\ claims = { ses[q].path : q \in { x \in DOMAIN ses : ses[x].st = "active" } }
\* nothing waits for ever
Progress == Rest \/ ENABLED Control \/ ENABLED Transport
=============================================================================
