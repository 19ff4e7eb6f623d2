------------------------------ MODULE MC_Room ------------------------------
(* Sessions of rooms as designed, in lock-step with the properties in Room.tla: a request is worked at until it is  *)
(* answered (joining, subscribing to what was asked for of what is there); the server lets the recorder in, refuses  *)
(* it, or leaves it waiting, cuts connections and ends them; whatever ends a session leaves its room.  Time passes   *)
(* in steps of two seconds; giving up joining takes 20 s, giving up a lost server 61 s (shortened here).             *)
(* Weak # "" leaves something out: the properties must notice.                                                      *)
EXTENDS Room, SequencesExt
CONSTANTS NReq, MaxT, Weak
VARIABLES pc, room, want, srv, conn, kicked, asked, t, at, gone, subs, st, viol
vars == << pc, room, want, srv, conn, kicked, asked, t, at, gone, subs, st, viol >>
Q == 1 .. NReq
Tracks(r) == { r * 10 + 1, r * 10 + 2 }
Have(r) == IF r = 1 THEN Tracks(1) ELSE {21}
Ms(x) == x * 2000
Sid(q) == "s"
Judge(e) == viol' = Viol(st, e) /\ st' = Step(st, e)
Same == UNCHANGED << st, viol >>
GiveUp == 2
Init == /\ pc = [ q \in Q |-> "new" ] /\ room = [ q \in Q |-> 0 ] /\ want = [ q \in Q |-> {} ] /\ srv = [ q \in Q |-> "" ]
        /\ conn = [ q \in Q |-> 0 ] /\ kicked = [ q \in Q |-> "" ] /\ asked = {} /\ t = 0 /\ at = [ q \in Q |-> 0 ] /\ gone = {} /\ subs = [ q \in Q |-> {} ]
        /\ st = InitSt(0) /\ viol = {}
Busy == \E q \in Q : pc[q] \in {"asked", "joining", "in", "subscribed", "failed"}
Live == { q \in Q : pc[q] = "active" }
NConn == Cardinality({ q \in Q : conn[q] # 0 })
\* one id: a second request for it is refused by Server's rules, so none is made
Ask == /\ ~Busy /\ Live = {} /\ \E q \in Q : /\ pc[q] = "new" /\ (\A r \in Q : r < q => pc[r] # "new")
          /\ \E r \in 1 .. 2, w \in { {11}, {11, 12}, {22}, {21, 22}, {11, 21} }, b \in { "ok", "refuse", "hang", "late" } :
               /\ room' = [ room EXCEPT ![q] = r ] /\ want' = [ want EXCEPT ![q] = w ] /\ srv' = [ srv EXCEPT ![q] = b ]
               /\ Judge([ op |-> "req", kind |-> "start", s |-> Sid(q), q |-> q, room |-> r, want |-> SetToSeq(w), new |-> IF b = "ok" THEN "good" ELSE "bad", t |-> Ms(t) ])
          /\ pc' = [ pc EXCEPT ![q] = "asked" ] /\ at' = [ at EXCEPT ![q] = t ]
       /\ UNCHANGED << conn, kicked, asked, t, gone, subs >>
To(q, p) == pc' = [ pc EXCEPT ![q] = p ]
Let(q, late) == /\ conn' = [ conn EXCEPT ![q] = NConn + 1 ]
                /\ Judge([ op |-> "join", k |-> NConn + 1, q |-> q, room |-> IF Weak = "room" THEN 1 ELSE room[q], tok |-> TRUE, auto |-> Weak = "auto",
                           have |-> SetToSeq(Have(room[q])), t |-> Ms(t) ])
Knock(q) == /\ pc[q] = "asked"
            /\ CASE srv[q] = "ok" -> Let(q, FALSE) /\ To(q, IF Weak = "hasty" THEN "in" ELSE "joining")
                 [] srv[q] = "refuse" -> /\ Judge([ op |-> "refused", q |-> q, room |-> room[q], tok |-> TRUE ]) /\ To(q, IF Weak = "blind" THEN "subscribed" ELSE "failed") /\ UNCHANGED conn
                 [] OTHER -> /\ To(q, "joining") /\ Same /\ UNCHANGED conn
            /\ UNCHANGED << room, want, srv, kicked, asked, t, at, gone, subs >>
Joined(q) == /\ pc[q] = "joining" /\ srv[q] = "ok" /\ To(q, "in") /\ Same /\ UNCHANGED << room, want, srv, conn, kicked, asked, t, at, gone, subs >>
TimeOut(q) == /\ pc[q] = "joining" /\ srv[q] # "ok" /\ t >= at[q] + GiveUp /\ To(q, "failed") /\ Same
              /\ UNCHANGED << room, want, srv, conn, kicked, asked, t, at, gone, subs >>
\* the server lets in a request that nobody waits for any more
LetLate(q) == /\ srv[q] = "late" /\ pc[q] = "over" /\ conn[q] = 0 /\ Let(q, TRUE)
              /\ UNCHANGED << pc, room, want, srv, kicked, asked, t, at, gone, subs >>
Target(q) == IF Weak = "all" THEN Have(room[q]) ELSE want[q] \cap (IF Weak = "absent" THEN want[q] ELSE Have(room[q]))
Subscribe(q) == /\ pc[q] = "in" /\ \E n \in (IF Weak = "none" THEN {} ELSE Target(q)) \ subs[q] :
                      /\ subs' = [ subs EXCEPT ![q] = @ \cup {n} ]
                      /\ Judge([ op |-> "subscribe", k |-> conn[q], n |-> n, on |-> TRUE ])
                /\ UNCHANGED << pc, room, want, srv, conn, kicked, asked, t, at, gone >>
Ready(q) == /\ pc[q] = "in" /\ (Weak = "none" \/ Target(q) \subseteq subs[q]) /\ To(q, "subscribed") /\ Same
            /\ UNCHANGED << room, want, srv, conn, kicked, asked, t, at, gone, subs >>
Answer(q) == /\ pc[q] \in {"subscribed", "failed"}
             /\ Judge([ op |-> "pub", kind |-> "resp", s |-> Sid(q), ok |-> pc[q] = "subscribed", t |-> Ms(t) ])
             /\ To(q, IF pc[q] = "subscribed" THEN "active" ELSE "over")
             /\ UNCHANGED << room, want, srv, conn, kicked, asked, t, at, gone, subs >>
\* ---- ends ----
F == [ own |-> TRUE, ordered |-> TRUE, exists |-> TRUE, wf |-> TRUE, hdr |-> TRUE, miss |-> 0, pre |-> 0 ]
StopReq(q) == /\ pc[q] = "active" /\ q \notin asked /\ asked' = asked \cup {q} /\ Judge([ op |-> "req", kind |-> "stop", s |-> Sid(q), t |-> Ms(t) ])
              /\ UNCHANGED << pc, room, want, srv, conn, kicked, t, at, gone, subs >>
Kick(q) == /\ pc[q] = "active" /\ kicked[q] = "" /\ conn[q] # 0 /\ \E how \in { "leave", "cut" } :
                /\ kicked' = [ kicked EXCEPT ![q] = how ] /\ at' = [ at EXCEPT ![q] = t ]
                /\ Judge([ op |-> "ended", k |-> conn[q], how |-> how, t |-> Ms(t) ])
           /\ UNCHANGED << pc, room, want, srv, conn, asked, t, gone, subs >>
Noticed(q) == kicked[q] = "leave" \/ (kicked[q] = "cut" /\ t >= at[q] + 3)
Over(q, r) == /\ To(q, "over") /\ Judge([ op |-> "pub", kind |-> "stopped", s |-> Sid(q), reason |-> r, f |-> F, t |-> Ms(t) ])
              /\ UNCHANGED << room, want, srv, conn, kicked, asked, t, at, gone, subs >>
Stopped(q) == pc[q] = "active" /\ q \in asked /\ Over(q, "stopped")
Closed(q) == pc[q] = "active" /\ (IF Weak = "fickle" THEN pc[q] = "active" ELSE IF Weak = "deaf" THEN FALSE ELSE Noticed(q)) /\ Over(q, "closed")
\* the machine of the weak design "twice" says so again
Twice(q) == Weak = "twice" /\ pc[q] = "over" /\ kicked[q] = "leave" /\ q \in asked /\ Over(q, "closed")
Leave(q) == /\ pc[q] = "over" /\ conn[q] # 0 /\ q \notin gone /\ kicked[q] = ""
            /\ ~(Weak = "stay" /\ q \in asked) /\ ~(Weak = "ghost" /\ srv[q] = "late")
            /\ gone' = gone \cup {q} /\ Judge([ op |-> "left", k |-> conn[q], how |-> "leave", t |-> Ms(t) ])
            /\ UNCHANGED << pc, room, want, srv, conn, kicked, asked, t, at, subs >>
Prompt == \E q \in Q : \/ ENABLED Knock(q) \/ ENABLED Joined(q) \/ ENABLED TimeOut(q) \/ ENABLED Subscribe(q) \/ ENABLED Ready(q) \/ ENABLED Answer(q)
                       \/ (Weak # "fickle" /\ ENABLED Closed(q)) \/ ENABLED Stopped(q) \/ ENABLED Leave(q)
Open == { q \in Q : conn[q] # 0 /\ q \notin gone /\ kicked[q] = "" }
Tick == /\ viol = {} /\ ~Prompt /\ t < MaxT /\ t' = t + 1
        /\ Judge([ op |-> "settled", t |-> Ms(t'), open |-> SetToSeq({ conn[q] : q \in Open }) ])
        /\ UNCHANGED << pc, room, want, srv, conn, kicked, asked, at, gone, subs >>
Begins == viol = {} /\ (Ask \/ \E q \in Q : Knock(q) \/ Joined(q) \/ TimeOut(q) \/ LetLate(q))
Subs == viol = {} /\ \E q \in Q : Subscribe(q) \/ Ready(q) \/ Answer(q)
Ends == viol = {} /\ \E q \in Q : StopReq(q) \/ Kick(q) \/ Stopped(q) \/ Closed(q) \/ Twice(q)
Leaves == viol = {} /\ \E q \in Q : Leave(q)
Next == Begins \/ Subs \/ Ends \/ Leaves \/ Tick
Spec == Init /\ [][Next]_vars
Right == viol = {}
=============================================================================
