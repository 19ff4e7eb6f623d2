-------------------------------- MODULE Server --------------------------------
(* The recorder as its control channel shows it (S01-S12, R01, and what F01, F02, F05 mean for sessions).       *)
(* Events, in the order in which the channel carried them (t: ms):                                              *)
(*   sub     the subscription of the control channel is active                                                   *)
(*   req     a message for the recorder: start, stop, status, junk (not a known request), other (other channel)  *)
(*           start: s id, file (components), ext, adapter, new, legacy (offers: good, bad, none), lkok, secs      *)
(*   pub     a message of the recorder: resp, stopped, flow, status, unknown; ch: on the event channel            *)
(*   peer    what the peer of request q did or saw: connected, close, vanish, sawclose, noconnect, badanswer      *)
(*   media   the peer of request q starts or stops sending                                                       *)
(*   settled everything asked for and caused has happened or could long have happened                            *)
(*   idle    gauge, UDP ports, file handles, tasks (b..: before the first session)                               *)
(*   exit    the process has ended;   final  the files at the end                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC

EmptyF == [ x \in {} |-> 0 ]
Without(f, x) == [ y \in DOMAIN f \ {x} |-> f[y] ]
AbsS(x) == IF x < 0 THEN -x ELSE x
MaxS(a, b) == IF a > b THEN a ELSE b

\* ---- names of files ------------------------------------------------------------------------------
RECURSIVE Norm(_, _)
Norm(s, c) == IF c = <<>> THEN s
              ELSE LET x == Head(c) IN
                   IF x = "" \/ x = "." THEN Norm(s, Tail(c))
                   ELSE IF x = ".." THEN Norm(IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1), Tail(c))
                   ELSE Norm(Append(s, x), Tail(c))
Inside(dir, p) == Len(p) > Len(dir) /\ SubSeq(p, 1, Len(dir)) = dir
Target(cfg, file) == IF cfg.devnull THEN << "dev", "null" >> ELSE Norm(cfg.dir, file)

InitSt(cfg) == [ cfg |-> cfg, hello |-> FALSE, subbed |-> FALSE, q |-> <<>>, act |-> EmptyF,
                 used |-> { Norm(cfg.dir, << "old.webm" >>) },        \* files that exist
                 ids |-> {}, paths |-> {},                            \* ids and files ever used
                 conn |-> {}, gone |-> {}, saw |-> {},                \* requests whose peer connected, left, saw the end
                 over |-> {},                                         \* ids announced as ended
                 dead |-> FALSE ]

\* ---- requests ------------------------------------------------------------------------------------
Offer(e) == IF e.new # "none" THEN e.new ELSE e.legacy
Complete(e) == IF e.adapter = "livekit" THEN e.lkok
               ELSE e.adapter \in {"mediasoup", ""} /\ Offer(e) # "none"
\* a room that lets the recorder in is as good as an offer that can be answered
GoodOffer(e) == (IF e.adapter = "livekit" THEN e.new ELSE Offer(e)) = "good"
GoodName(st, e) == e.ext = ".webm" /\ (st.cfg.devnull \/ Inside(st.cfg.dir, Target(st.cfg, e.file)))
Acceptable(st, e) == Complete(e) /\ GoodOffer(e) /\ GoodName(st, e)

InUse(st, p) == ~st.cfg.devnull /\ (p \in st.used \/ \E s \in DOMAIN st.act : st.act[s].path = p)
\* a session about to end may have given its file back already
SurelyInUse(st, p) == ~st.cfg.devnull /\ (p \in st.used \/ \E s \in DOMAIN st.act : st.act[s].path = p /\ ~st.act[s].cause)

Silent(st, e) == e.kind = "stop" /\ e.s \notin DOMAIN st.act
\* requests the recorder may be working at: nothing that will be answered is before them
Reached(st, i) == \A j \in 1 .. i - 1 : Silent(st, st.q[j])
Mark(st) == [ st EXCEPT !.q = [ i \in DOMAIN @ |->
                IF @[i].kind = "start" /\ Reached(st, i)
                THEN [ @[i] EXCEPT !.conf = @ \/ st.q[i].s \in DOMAIN st.act \/ InUse(st, Target(st.cfg, st.q[i].file)) ]
                ELSE @[i] ] ]
RECURSIVE Skip(_, _)
Skip(st, q) == IF q # <<>> /\ Silent(st, Head(q)) THEN Skip(st, Tail(q)) ELSE q

\* ---- responses -----------------------------------------------------------------------------------
RespViol(st, ev) ==
  LET q == Skip(st, st.q) IN
  IF q = <<>> THEN {"S01.unasked", "R01.once", "S07.reply"}
  ELSE LET e == Head(q)
           p == Target(st.cfg, e.file)
           form == IF ev.ok
                   THEN (IF ev.err \/ ev.failed \/ ~ev.hasfile \/ (e.adapter # "livekit" /\ ~ev.sdp) THEN {"S01.form"} ELSE {})
                   ELSE (IF ~ev.failed \/ ~ev.err \/ ev.sdp \/ ev.hasfile THEN {"S01.form"} ELSE {})
       IN
       IF e.kind = "stop" THEN {"S03.answer", "R01.order"}
       ELSE IF e.kind # "start" \/ e.s # ev.s THEN {"S01.answer", "R01.order"}
       ELSE form \cup
         IF ev.ok
         THEN (IF ~Complete(e) THEN {"S11.accept"} ELSE {})
              \cup (IF Complete(e) /\ ~GoodOffer(e) THEN {"S01.truth"} ELSE {})
              \cup (IF ~GoodName(st, e) THEN {"F01.refuse"} ELSE {})
              \cup (IF e.s \in DOMAIN st.act THEN {"S02.exclusive", "S01.truth"} ELSE {})
              \cup (IF SurelyInUse(st, p) THEN {"F02.overwrite"} ELSE {})
              \cup (IF ev.hasfile /\ Norm(<<>>, ev.file) # p THEN {"S01.path", "F01.path"} ELSE {})
              \cup (IF \E i \in DOMAIN ev.ports : ev.ports[i] < st.cfg.lo \/ ev.ports[i] > st.cfg.hi THEN {"S12.range"} ELSE {})
              \cup (IF ev.sdp /\ ev.secs # e.secs THEN {"S12.sections"} ELSE {})
         ELSE IF Acceptable(st, e) /\ ~e.conf /\ ~st.cfg.noports
              THEN {"S11.refuse"} \cup (IF e.s \in st.ids THEN {"S02.free"} ELSE {}) \cup (IF p \in st.paths THEN {"F02.free"} ELSE {})
              ELSE {}

RespStep(st, ev) ==
  LET q == Skip(st, st.q) IN
  IF q = <<>> \/ Head(q).kind # "start" \/ Head(q).s # ev.s THEN st
  ELSE LET e == Head(q)
           s1 == [ st EXCEPT !.q = Tail(q) ]
       IN IF ev.ok
          THEN [ s1 EXCEPT !.act = (e.s :> [ q |-> e.q, path |-> Target(st.cfg, e.file), cause |-> e.q \in st.gone, v |-> e.v, a |-> e.a,
                                             flow |-> "none", fts |-> 0, on |-> FALSE, onT |-> 0, offT |-> ev.t, conT |-> -1, ever |-> FALSE,
                                             sumOn |-> 0 ]) @@ @,
                           !.ids = @ \cup {e.s}, !.paths = @ \cup {Target(st.cfg, e.file)}, !.over = @ \ {e.s} ]
          ELSE [ s1 EXCEPT !.ids = @ \cup {e.s} ]

\* ---- ends ----------------------------------------------------------------------------------------
\* media that must have reached the file by now
Sent(a, t) == a.sumOn + (IF a.on THEN t - MaxS(a.onT, a.conT) ELSE 0)
StoppedViol(st, ev) ==
  IF ev.s \notin DOMAIN st.act
  THEN (IF ev.s \in st.over THEN {"S04.once"} ELSE {"S04.unstarted"}) \cup {"S03.unasked"}
  ELSE LET a == st.act[ev.s]
           q == Skip(st, st.q)
           asked == q # <<>> /\ Head(q).kind = "stop" /\ Head(q).s = ev.s
       IN (IF ev.reason = "stopped" /\ ~asked THEN {"S03.unasked", "S04.cause"} ELSE {})
          \cup (IF ev.reason # "stopped" /\ ~a.cause THEN {"S05.stay"} ELSE {})
          \cup (IF ev.reason = "" THEN {"S05.reason"} ELSE {})
          \cup (IF ev.f.exists /\ ~(ev.f.wf /\ ev.f.hdr) THEN {"S03.file", "S05.file"} ELSE {})
          \cup (IF ~ev.f.own \/ ~ev.f.ordered THEN {"S02.media"} ELSE {})
          \cup (IF ~st.cfg.devnull /\ a.conT >= 0 /\ Sent(a, ev.t) > 4000 /\ ~ev.f.exists THEN {"S03.media!", "S05.media!"} ELSE {})
          \cup (IF ~ev.f.exists /\ ~st.cfg.devnull /\ ev.ts # 0 THEN {"F05.event"} ELSE {})
          \cup (IF ev.f.exists /\ a.v = 0 /\ AbsS(ev.ts - ev.f.lasta) > 1 THEN {"F05.event"} ELSE {})
          \cup (IF ev.f.exists /\ a.a = 0 /\ AbsS(ev.ts - ev.f.lastv) > 1 THEN {"F05.event"} ELSE {})
StoppedStep(st, ev) ==
  IF ev.s \notin DOMAIN st.act THEN st
  ELSE LET a == st.act[ev.s]
           q == Skip(st, st.q)
           asked == ev.reason = "stopped" /\ q # <<>> /\ Head(q).kind = "stop" /\ Head(q).s = ev.s
       IN [ st EXCEPT !.q = IF asked THEN Tail(q) ELSE @, !.act = Without(@, ev.s), !.over = @ \cup {ev.s},
                      !.used = IF ev.f.exists THEN @ \cup {a.path} ELSE @ ]

\* ---- flow ----------------------------------------------------------------------------------------
One(a) == a.v + a.a = 1
\* what is overdue or out of place by the clock
FlowDue(st, s, t) ==
  LET a == st.act[s] IN
  IF ~One(a) \/ a.conT < 0 \/ a.cause THEN {}
  ELSE (IF a.on /\ t - MaxS(a.onT, a.conT) > 3000 /\ a.flow # "flowing" THEN {"S09.start!"} ELSE {})
       \cup (IF ~a.on /\ t - a.offT > 3500 /\ a.flow = "flowing" THEN {"S09.stop!"} ELSE {})
AllDue(st, t) == UNION { FlowDue(st, s, t) : s \in DOMAIN st.act }
FlowViol(st, ev) ==
  IF ev.s \notin DOMAIN st.act
  THEN (IF ev.s \in st.over THEN {"S04.after"} ELSE {"S04.unstarted"}) \cup {"S09.session"}
  ELSE LET a == st.act[ev.s]
           last == IF a.v > 0 THEN ev.lastv ELSE ev.lasta
       IN IF ~One(a) THEN (IF ev.st \notin {"flowing", "not_flowing"} \/ ~ev.num THEN {"S09.form"} ELSE {})
          ELSE (IF ev.st \notin {"flowing", "not_flowing"} \/ ~ev.num THEN {"S09.form"} ELSE {})
               \cup (IF ev.st = a.flow \/ (a.flow = "none" /\ ev.st # "flowing") THEN {"S09.alternate"} ELSE {})
               \cup (IF ev.ts < a.fts THEN {"S09.back"} ELSE {})
               \cup (IF ~a.ever THEN {"S09.phantom"} ELSE {})
               \cup (IF ev.st = "flowing" /\ ~a.on /\ ev.t - a.offT > 1500 THEN {"S09.phantom!"} ELSE {})
               \cup (IF ev.st = "not_flowing" /\ a.on /\ ~a.cause /\ ev.t - MaxS(a.onT, a.conT) > 1500 THEN {"S09.spurious!"} ELSE {})
               \* the media time recorded so far: what is in the file (which may have grown a little meanwhile)
               \cup (IF ~st.cfg.devnull /\ (ev.ts > last + 45 \/ ev.ts < last - (IF a.on THEN 700 ELSE 45)) THEN {"S09.time"} ELSE {})
FlowStep(st, ev) ==
  IF ev.s \notin DOMAIN st.act THEN st
  ELSE [ st EXCEPT !.act[ev.s].flow = ev.st, !.act[ev.s].fts = ev.ts ]

\* ---- status --------------------------------------------------------------------------------------
StatusViol(st, ev) ==
  (IF ~ev.inst \/ ~ev.uniq THEN {"S08.instance"} ELSE {})
  \cup (IF ev.ver # st.cfg.ver THEN {"S08.version"} ELSE {})
  \cup (IF AbsS(ev.age) > 5000 THEN {"S08.time"} ELSE {})
  \cup (IF ~st.hello THEN (IF ~st.subbed THEN {"S08.early"} ELSE {})
        ELSE LET q == Skip(st, st.q) IN
             IF q = <<>> THEN {"S08.unasked", "R01.once", "S07.reply"}
             ELSE IF Head(q).kind = "stop" THEN {"S03.answer", "R01.order"}
             ELSE IF Head(q).kind # "status" THEN {"S01.answer", "R01.order"} ELSE {})
StatusStep(st, ev) ==
  IF ~st.hello THEN [ st EXCEPT !.hello = TRUE ]
  ELSE LET q == Skip(st, st.q) IN
       IF q # <<>> /\ Head(q).kind = "status" THEN [ st EXCEPT !.q = Tail(q) ] ELSE st

\* ---- what must be true when everything has settled -------------------------------------------------
SettledViol(st, ev) ==
  LET q == Skip(st, st.q) IN
  (IF ~st.hello THEN {"S08.hello"} ELSE {})
  \cup (IF q = <<>> THEN {}
        ELSE CASE Head(q).kind = "start" -> {"S01.answer", "R01.once"}
               [] Head(q).kind = "stop" -> {"S03.answer", "R01.once"}
               [] OTHER -> {"S08.answer", "R01.once"})
  \cup (IF \E s \in DOMAIN st.act : st.act[s].cause THEN {"S05.ends!"} ELSE {})
  \* the peer of a session that ended saw the end
  \cup (IF \E r \in st.conn : r \notin st.gone \cup st.saw /\ \A s \in DOMAIN st.act : st.act[s].q # r THEN {"S10.close!"} ELSE {})
  \cup AllDue(st, ev.t)
IdleViol(st, ev) ==
  (IF ev.gauge # Cardinality(DOMAIN st.act) THEN {"S06.gauge"} ELSE {})
  \cup (IF \E i \in DOMAIN ev.socks : (ev.socks[i] < st.cfg.lo \/ ev.socks[i] > st.cfg.hi) /\ ev.socks[i] # 5353 THEN {"S12.range"} ELSE {})
  \cup (IF DOMAIN st.act = {} /\ (ev.socks # <<>> \/ ev.fds > ev.bfds \/ ev.gor > ev.bgor) THEN {"S10.leak!"} ELSE {})

PeerViol(st, ev) ==
  CASE ev.what = "sawclose" ->
         IF ev.q \notin st.gone /\ \E s \in DOMAIN st.act : st.act[s].q = ev.q /\ ~st.act[s].cause THEN {"S05.stay", "S02.disturb"} ELSE {}
    [] ev.what = "noconnect" -> {"S01.connect!"}
    [] ev.what = "badanswer" -> {"S01.answer"}
    [] OTHER -> {}

Viol(st, ev) ==
  CASE ev.op = "exit" -> {"crash"}
    [] ev.op = "harness" -> {"HARNESS"}
    [] ev.op = "pub" /\ ~ev.ch -> {"R01.channel"}
    [] ev.op = "pub" /\ ev.kind = "unknown" -> {"R01.unknown", "S07.reply"}
    [] ev.op = "pub" /\ ev.kind = "resp" -> RespViol(st, ev)
    [] ev.op = "pub" /\ ev.kind = "stopped" -> StoppedViol(st, ev)
    [] ev.op = "pub" /\ ev.kind = "flow" -> FlowViol(st, ev)
    [] ev.op = "pub" /\ ev.kind = "status" -> StatusViol(st, ev)
    [] ev.op = "sub" -> IF ~ev.ch \/ st.subbed THEN {"R01.channel"} ELSE {}
    [] ev.op = "peer" -> PeerViol(st, ev)
    [] ev.op \in {"media", "req"} -> AllDue(st, ev.t)
    [] ev.op = "settled" -> SettledViol(st, ev)
    [] ev.op = "idle" -> IdleViol(st, ev)
    [] ev.op = "final" -> (IF ~ev.same THEN {"S03.final", "S05.final"} ELSE {})
                          \cup (IF ~ev.old THEN {"F02.overwrite"} ELSE {})
                          \cup (IF ev.stray # <<>> THEN {"F01.stray", "S11.nothing"} ELSE {})
    [] OTHER -> {}

ByPeer(st, r) == { s \in DOMAIN st.act : st.act[s].q = r }
OnAct(st, S, Op(_)) == [ st EXCEPT !.act = [ s \in DOMAIN @ |-> IF s \in S THEN Op(@[s]) ELSE @[s] ] ]
Step0(st, ev) ==
  CASE ev.op = "sub" -> [ st EXCEPT !.subbed = TRUE ]
    [] ev.op = "req" /\ ev.kind = "start" ->
         [ st EXCEPT !.q = Append(@, [ kind |-> "start", s |-> ev.s, q |-> ev.q, file |-> ev.file, ext |-> ev.ext, adapter |-> ev.adapter,
                                       new |-> ev.new, legacy |-> ev.legacy, lkok |-> ev.lkok, secs |-> ev.secs, v |-> ev.v, a |-> ev.a, conf |-> FALSE ]) ]
    [] ev.op = "req" /\ ev.kind \in {"stop", "status"} -> [ st EXCEPT !.q = Append(@, [ kind |-> ev.kind, s |-> ev.s ]) ]
    [] ev.op = "pub" /\ ev.kind = "resp" -> RespStep(st, ev)
    [] ev.op = "pub" /\ ev.kind = "stopped" -> StoppedStep(st, ev)
    [] ev.op = "pub" /\ ev.kind = "flow" -> FlowStep(st, ev)
    [] ev.op = "pub" /\ ev.kind = "status" -> StatusStep(st, ev)
    [] ev.op = "peer" ->
         LET S == ByPeer(st, ev.q) IN
         CASE ev.what \in {"close", "vanish", "mute"} ->
                OnAct([ st EXCEPT !.gone = @ \cup {ev.q} ], S, LAMBDA a : [ a EXCEPT !.cause = TRUE, !.on = FALSE, !.offT = IF a.on THEN ev.t ELSE @, !.sumOn = Sent(a, ev.t) ])
           [] ev.what = "connected" -> OnAct([ st EXCEPT !.conn = @ \cup {ev.q} ], S, LAMBDA a : [ a EXCEPT !.conT = ev.t ])
           [] ev.what = "sawclose" -> [ st EXCEPT !.saw = @ \cup {ev.q} ]
           [] OTHER -> st
    [] ev.op = "media" ->
         OnAct(st, ByPeer(st, ev.q),
               LAMBDA a : IF ev.on THEN (IF a.on \/ a.cause THEN a ELSE [ a EXCEPT !.on = TRUE, !.onT = ev.t, !.ever = TRUE ])
                          ELSE (IF a.on THEN [ a EXCEPT !.on = FALSE, !.offT = ev.t, !.sumOn = Sent(a, ev.t) ] ELSE a))
    [] ev.op = "exit" -> [ st EXCEPT !.dead = TRUE ]
    [] OTHER -> st
Step(st, ev) == Mark(Step0(st, ev))
=============================================================================
