------------------------------ MODULE Recorder ------------------------------
(* One recording (F03-F06, V01-V05, A01): packets of one video and one audio stream go in, in the order the   *)
(* jitter buffer releases them, and a WebM file and an IVF copy come out.                                      *)
(* cfg: sampler ("custom", "builtin"), video, audio, ivf (tracks announced, copy configured), pid (bits of the *)
(*      picture numbers, 0 = none), vq, aq (queue lengths), mode (of the file), frames (by number: key, bad, k parts, *)
(*      RTP time ms+rem/90, w, h; bad: too short or of invalid size), snd (RTP time of each audio packet ms+rem/48), tag                          *)
(* Events: v     a video packet: sequence number seq, frame f (0 padding, -1 malformed), part, key, req: the   *)
(*               keyframe requests made while it was pushed, now: ms; race: pushed while being closed          *)
(*         notify  the jitter buffer passed over packets, the last being seq                                   *)
(*         a     an audio packet seq, id (index in snd)                                                        *)
(*         snap  the file as a crash would leave it: exists, prefix (of the final file), wf (a header and      *)
(*               complete blocks, at most one more cut off), hdr (header complete), nv, na (complete blocks)   *)
(*         close ret (it returned), ts                                                                         *)
(*         final the finished file(s)                                                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Abs(x) == IF x < 0 THEN -x ELSE x
Max(a, b) == IF a > b THEN a ELSE b
EmptyFn == [ x \in {} |-> 0 ]

InitSt(cfg) ==
  [ cfg |-> cfg, n |-> 0,
    lastSeq |-> -1, f |-> 0, part |-> 0, at |-> 0,   \* the video stream: last number, frame in assembly, its parts so far and its begin
    got |-> {},                               \* frames of which anything arrived
    comp |-> {},                              \* frames all of whose parts arrived in one run
    race |-> {},                              \* frames that came while the recording was being closed
    doneAt |-> EmptyFn,                       \* frame -> event at which it was complete
    dirty |-> FALSE, exempt |-> {},           \* frames after a malformed packet, up to the next keyframe
    loss |-> FALSE,                           \* the video stream was ever disturbed
    sync |-> "first", lastRec |-> 0, lastReq |-> -5000,
    as |-> <<>>, aLast |-> -1, aLoss |-> FALSE,
    aUpTo |-> -1, aHeld |-> {}, relAt |-> EmptyFn,   \* audio: waited for up to, held back behind a gap, done waiting (and when)
    hv |-> cfg.video /\ cfg.late # 2, ha |-> cfg.audio /\ cfg.late # 1,   \* the tracks announced so far
    fv |-> FALSE, fa |-> FALSE,               \* the tracks the file has
    open |-> FALSE, openAt |-> -1,
    closed |-> FALSE, closeTs |-> -1, snaps |-> <<>> ]

Fr(st, f) == st.cfg.frames[f]
IsKeyStart(ev) == ev.f > 0 /\ ev.part = 1 /\ ev.key
IsPad(ev) == ev.f = 0

\* ---- the video stream ------------------------------------------------------------------------
Gap(st, ev) == st.lastSeq >= 0 /\ ev.seq # st.lastSeq + 1
\* the part continues the frame being assembled
Continues(st, ev) == ~Gap(st, ev) /\ ev.f > 0 /\ ev.f = st.f /\ ev.part = st.part + 1 /\ ev.part > 1
\* the default sampler gives up a frame whose assembly takes more than two seconds ...
Slow(st, ev) == st.cfg.sampler = "custom" /\ Continues(st, ev) /\ ev.now - st.at > 2000
Ends(st, ev) == /\ ev.f > 0 /\ ev.part = Fr(st, ev.f).k
                /\ ev.part = 1 \/ Continues(st, ev)
\* ... and one that cannot be decoded
Invalid(st, ev) == st.cfg.sampler = "custom" /\ Ends(st, ev) /\ Fr(st, ev.f).bad
Completes(st, ev) == Ends(st, ev) /\ ~Slow(st, ev) /\ ~Invalid(st, ev)

VStep(st, ev) ==
  LET gap == Gap(st, ev)
      done == Completes(st, ev)
      s1 == [ st EXCEPT !.lastSeq = ev.seq, !.loss = @ \/ gap \/ ev.f = -1 \/ (st.lastSeq < 0 /\ ev.part > 1),
                        !.f = IF IsPad(ev) THEN (IF gap THEN 0 ELSE @)
                              ELSE IF ev.f = -1 \/ Ends(st, ev) \/ Slow(st, ev) THEN 0
                              ELSE IF ev.part = 1 \/ Continues(st, ev) THEN ev.f ELSE 0,
                        !.part = IF IsPad(ev) THEN @ ELSE ev.part,
                        !.at = IF ev.f > 0 /\ ev.part = 1 THEN ev.now ELSE @,
                        !.got = IF ev.f > 0 /\ ~ev.race THEN @ \cup {ev.f} ELSE @,
                        !.dirty = IF ev.f = -1 THEN TRUE ELSE IF done /\ Fr(st, ev.f).key THEN FALSE ELSE @,
                        !.comp = IF done THEN @ \cup {ev.f} ELSE @,
                        !.race = IF done /\ ev.race THEN @ \cup {ev.f} ELSE @,
                        !.exempt = IF done /\ st.dirty /\ ~Fr(st, ev.f).key THEN @ \cup {ev.f} ELSE @,
                        !.doneAt = IF done THEN @ @@ (ev.f :> st.n) ELSE @ ]
      \* a file begins with a keyframe; it begins anew once a track was announced that it does not have
      opens == /\ done /\ Fr(st, ev.f).key /\ ((st.hv /\ ~st.fv) \/ (st.ha /\ ~st.fa))
               /\ st.cfg.sampler = "custom" \/ ~s1.loss
  IN  IF opens THEN [ s1 EXCEPT !.open = TRUE, !.openAt = ev.now, !.fv = st.hv, !.fa = st.ha,
                                !.as = [ i \in DOMAIN @ |-> [ @[i] EXCEPT !.open = FALSE ] ] ] ELSE s1

\* ---- keyframe requests (default sampler) -------------------------------------------------------
\* A begun frame is lost, or recording stops until the next keyframe, or the first one is awaited
NumberedGap(st, ev) == st.cfg.pid > 0 /\ ev.f > 0 /\ ev.part = 1 /\ ~ev.key /\ st.lastRec > 0 /\ ev.f # st.lastRec + 1
BrokenFrame(st, ev) == st.f > 0 /\ st.sync = "yes" /\ Gap(st, ev)
Must(st, ev) ==
  \/ BrokenFrame(st, ev)
  \/ ev.f = -1
  \/ st.sync = "first" /\ ev.f > 0 /\ ~IsKeyStart(ev)
  \/ st.sync = "yes" /\ NumberedGap(st, ev)
  \/ st.sync = "yes" /\ ev.f > 0 /\ ev.part > 1 /\ (~Continues(st, ev) \/ Slow(st, ev))
  \/ (st.sync = "yes" \/ IsKeyStart(ev)) /\ Invalid(st, ev)
SyncNext(st, ev) ==
  IF IsPad(ev) THEN (IF BrokenFrame(st, ev) THEN "no" ELSE st.sync)
  ELSE IF IsKeyStart(ev) THEN (IF Invalid(st, ev) THEN "no" ELSE "yes")
  ELSE IF st.sync = "first" THEN "first"
  ELSE IF Must(st, ev) THEN "no" ELSE st.sync
ReqViol(st, ev, must) ==
  LET long == ev.now - st.lastReq
  IN  (IF must /\ long > 1000 /\ ev.req = 0 THEN {"V05.must"} ELSE {})
      \cup (IF ev.req > 1 \/ (ev.req = 1 /\ long < 1000) THEN {"V05.rate"} ELSE {})
      \cup (IF ev.req > 0 /\ ~must /\ st.sync = "yes" THEN {"V05.need"} ELSE {})
\* ---- the audio stream --------------------------------------------------------------------------
\* Audio packets wait for missing ones before them until one arrives that is the queue length ahead; each such
\* arrival ends the wait for (at least) the oldest gap.
RECURSIVE RunFrom(_, _)
RunFrom(H, s) == IF s \in H THEN RunFrom(H, s + 1) ELSE s
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
AStep(st, ev) ==
  LET q == Max(2, st.cfg.aq)
      far == ev.seq - q
      upto == IF st.aUpTo < 0 THEN ev.seq - 1
              ELSE IF far >= st.aUpTo THEN (IF st.aHeld # {} /\ MinOf(st.aHeld) - 1 <= far THEN MinOf(st.aHeld) - 1 ELSE far)
              ELSE st.aUpTo
      H == st.aHeld \cup {ev.seq}
      end == RunFrom(H, upto + 1)
      rel == { s \in H : s < end }
  IN  [ st EXCEPT !.aUpTo = end - 1, !.aHeld = H \ rel,
                  !.relAt = IF ev.race THEN @ ELSE [ s \in rel |-> st.n ] @@ @ ]
ReqStep(st, ev) == IF ev.req > 0 THEN [ st EXCEPT !.lastReq = ev.now ] ELSE st
\* a notification names a missing number; it may already make the recorder give up the frame in assembly
NotifyViol(st, ev) ==
  (IF ev.req > 1 \/ (ev.req = 1 /\ ev.now - st.lastReq < 1000) THEN {"V05.rate"} ELSE {})
  \cup (IF ev.req > 0 /\ st.sync = "yes" /\ st.f = 0 THEN {"V05.need"} ELSE {})

\* ---- the finished file -------------------------------------------------------------------------
Rec(ev) == { ev.vb[i].f : i \in DOMAIN ev.vb }
Key(st, f) == Fr(st, f).key
Floor(x, y) == x \div y
\* RTP time between two frames (packets), in ms, rounded down
ElapsedV(a, b) == (b.ms - a.ms) + Floor(b.rem - a.rem, 90)
ElapsedA(a, b) == (b.ms - a.ms) + Floor(b.rem - a.rem, 48)

V01Viol(st, ev) ==
  (IF \E i \in DOMAIN ev.vb : ev.vb[i].f = 0 THEN {"V01.unaltered"} ELSE {})
  \cup (IF \E i \in DOMAIN ev.vb : ev.vb[i].f # 0 /\ ev.vb[i].f \notin st.comp THEN {"V01.whole"} ELSE {})
  \cup (IF \E i \in DOMAIN ev.vb : i > 1 /\ ev.vb[i].f <= ev.vb[i-1].f /\ ev.vb[i].f # 0 THEN {"V01.once"} ELSE {})
V02Viol(st, ev) ==
  LET ok == { i \in DOMAIN ev.vb : ev.vb[i].f # 0 }
  IN  (IF 1 \in ok /\ ~Key(st, ev.vb[1].f) THEN {"V02.first"} ELSE {})
      \cup (IF \E i \in ok : ev.vb[i].key # Key(st, ev.vb[i].f) THEN {"V02.flag"} ELSE {})
      \cup (IF st.cfg.sampler = "custom" /\ st.cfg.pid > 0 /\
               \E i \in ok : ~Key(st, ev.vb[i].f) /\ (i = 1 \/ ev.vb[i-1].f # ev.vb[i].f - 1) THEN {"V02.chain"} ELSE {})
      \* numbered or not, the recorder knows of the frames of which anything arrived
      \cup (IF st.cfg.sampler = "custom" /\
               \E i \in ok : ~Key(st, ev.vb[i].f) /\ (ev.vb[i].f - 1) \in st.got \ Rec(ev) THEN {"V02.known"} ELSE {})
MustV(st, R) ==
  IF st.cfg.sampler = "custom"
  THEN { f \in st.comp \ (st.race \cup st.exempt) : Key(st, f) \/ (f - 1) \in R }
  ELSE IF st.loss THEN {}
  ELSE { f \in st.comp \ st.race : \E g \in st.comp : g <= f /\ Key(st, g) }
V03Viol(st, ev) ==
  IF ~st.cfg.video \/ st.cfg.disk THEN {} ELSE IF MustV(st, Rec(ev)) \subseteq Rec(ev) THEN {} ELSE {"V03.complete"}
V04Viol(st, ev) ==
  LET ok == { i \in DOMAIN ev.vb : ev.vb[i].f # 0 }
      T(i) == Fr(st, ev.vb[i].f)
  IN  IF 1 \in ok
      THEN (IF ev.vb[1].t # 0 THEN {"V04.zero"} ELSE {}) \cup
           (IF \E i \in ok : Abs(ev.vb[i].t - ev.vb[1].t - ElapsedV(T(1), T(i))) > 1 THEN {"V04.time"} ELSE {})
           \cup (IF \E i \in DOMAIN ev.vb : i > 1 /\ ev.vb[i].t < ev.vb[i-1].t THEN {"V04.order"} ELSE {})
      ELSE {}

\* audio packets that have to be in the file: those whose wait was over
\* (whether the built-in sampler began the file anew with a keyframe after a loss is not known)
Sure(st) == st.cfg.late = 0 \/ st.cfg.sampler = "custom" \/ ~st.loss
MustA(st) == IF ~Sure(st) THEN {} ELSE { i \in DOMAIN st.as : st.as[i].open /\ ~st.as[i].race /\ st.as[i].seq \in DOMAIN st.relAt }
A01Viol(st, ev) ==
  LET Pos(id) == CHOOSE i \in DOMAIN st.as : st.as[i].id = id
      ids == { st.as[i].id : i \in DOMAIN st.as }
      S(k) == st.cfg.snd[ev.ab[k].a]
      known == \A k \in DOMAIN ev.ab : ev.ab[k].a \in ids
  IN  IF ~known THEN {"A01.unaltered"}
      ELSE (IF \E k \in DOMAIN ev.ab : k > 1 /\ st.as[Pos(ev.ab[k].a)].seq <= st.as[Pos(ev.ab[k-1].a)].seq THEN {"A01.order"} ELSE {})
           \cup (IF st.cfg.audio /\ ~st.cfg.disk /\ \E i \in MustA(st) : \A k \in DOMAIN ev.ab : ev.ab[k].a # st.as[i].id THEN {"A01.complete"} ELSE {})
           \cup (IF \E k \in DOMAIN ev.ab : Abs(ev.ab[k].t - ev.ab[1].t - ElapsedA(S(1), S(k))) > 1 THEN {"A01.time"} ELSE {})
           \cup (IF st.cfg.video /\ Len(ev.ab) > 0 /\ Len(ev.vb) > 0 /\ st.open /\ Sure(st)
                 THEN LET p == st.as[Pos(ev.ab[1].a)]
                      IN IF p.open /\ ~p.loss /\ Abs(ev.ab[1].t - ev.vb[1].t - (p.now - st.openAt)) > 1 THEN {"A01.start"} ELSE {}
                 ELSE {})

HasV(st) == st.cfg.video
F03Viol(st, ev) ==
  LET any == ev.vb # <<>> \/ ev.ab # <<>>
  IN  (IF ev.exists /\ ~ev.wf THEN {"F03.wellformed"} ELSE {})
      \cup (IF ev.exists /\ ev.hdr /\ ~ev.tracks THEN {"F03.tracks"} ELSE {})
      \cup (IF ev.exists /\ ~st.cfg.disk /\ ~ev.hdr THEN {"F03.header"} ELSE {})
      \cup (IF st.cfg.video /\ ev.vb # <<>> /\ ev.vb[1].f # 0 /\ (ev.w # Fr(st, ev.vb[1].f).w \/ ev.h # Fr(st, ev.vb[1].f).h)
            THEN {"F03.size"} ELSE {})
F04Viol(st, ev) ==
  LET held == st.cfg.vq + 17
      \* blocks that were handed to the file before a snapshot
      V(s) == Cardinality({ i \in DOMAIN ev.vb : ev.vb[i].f \in DOMAIN st.doneAt /\ st.doneAt[ev.vb[i].f] < s.at })
      as == { k \in DOMAIN st.as : st.as[k].seq \in DOMAIN st.relAt /\ st.as[k].open /\ \E j \in DOMAIN ev.ab : ev.ab[j].a = st.as[k].id }
      A(s) == Cardinality({ k \in as : st.relAt[st.as[k].seq] < s.at })
      slack == IF st.cfg.video /\ st.cfg.audio THEN held ELSE 0
  IN  (IF \E i \in DOMAIN st.snaps : ~st.snaps[i].prefix THEN {"F04.prefix"} ELSE {})
      \cup (IF \E i \in DOMAIN st.snaps : ~st.snaps[i].wf THEN {"F04.playable"} ELSE {})
      \cup (IF ~st.cfg.disk /\ (st.cfg.sampler = "custom" \/ ~st.loss) /\
               \E i \in DOMAIN st.snaps : LET s == st.snaps[i] IN s.nv < V(s) - slack \/ s.na < A(s) - slack THEN {"F04.timely"} ELSE {})
\* what close reports: the time of the last video frame since the first (of audio, if there is no video)
F05Viol(st, ev) ==
  (IF ~ev.same THEN {"F05.final"} ELSE {})
  \cup (IF st.cfg.race \/ st.cfg.disk THEN {}
        ELSE IF st.hv
        THEN (IF Len(ev.vb) = 0 THEN (IF st.closeTs = 0 THEN {} ELSE {"F05.time"})
              ELSE IF Abs(st.closeTs - (ev.vb[Len(ev.vb)].t - ev.vb[1].t)) > 1 THEN {"F05.time"} ELSE {})
        ELSE (IF Len(ev.ab) = 0 THEN (IF st.closeTs = 0 THEN {} ELSE {"F05.time"})
              ELSE IF Abs(st.closeTs - (ev.ab[Len(ev.ab)].t - ev.ab[1].t)) > 1 THEN {"F05.time"} ELSE {}))
\* the copy has the frames of the recording (and those that it had before it began anew)
Copy(st, fs, vs) == IF st.cfg.late = 0 THEN fs = vs ELSE Len(fs) >= Len(vs) /\ SubSeq(fs, Len(fs) - Len(vs) + 1, Len(fs)) = vs
F06Viol(st, ev) ==
  LET v == ev.ivf
      keys == { i \in DOMAIN v.fs : v.fs[i] > 0 /\ Key(st, v.fs[i]) }
      last == CHOOSE i \in keys : \A j \in keys : j <= i
  IN  IF ~st.cfg.ivf \/ ~st.cfg.video \/ ev.vb = <<>>
      THEN (IF ~st.cfg.ivf /\ v.exists THEN {"F06.unasked"} ELSE {})
      ELSE IF ~v.exists THEN {"F06.exists"}
      ELSE (IF ~v.ok THEN {"F06.wellformed"} ELSE {})
           \cup (IF v.ok /\ ~st.cfg.disk /\ v.count # Len(v.fs) THEN {"F06.count"} ELSE {})
           \cup (IF v.ok /\ ~st.cfg.disk /\ ~Copy(st, v.fs, [ i \in DOMAIN ev.vb |-> ev.vb[i].f ]) THEN {"F06.frames"} ELSE {})
           \cup (IF v.ok /\ ~v.times THEN {"F06.times"} ELSE {})
           \cup (IF v.ok /\ ~st.cfg.disk /\ keys # {} /\ (v.w # Fr(st, v.fs[last]).w \/ v.h # Fr(st, v.fs[last]).h) THEN {"F06.size"} ELSE {})
           \cup (IF ~v.private THEN {"F06.private"} ELSE {})

FinalViol(st, ev) ==
  V01Viol(st, ev) \cup V02Viol(st, ev) \cup V03Viol(st, ev) \cup V04Viol(st, ev) \cup A01Viol(st, ev)
  \cup F03Viol(st, ev) \cup F04Viol(st, ev) \cup F05Viol(st, ev) \cup F06Viol(st, ev)

All == { "V01.crash", "V02.crash", "V03.crash", "V04.crash", "V05.crash", "A01.crash", "F03.crash", "F04.crash", "F05.crash", "F06.crash" }

Viol(st, ev) ==
  CASE ev.op = "crash"  -> All
    [] ev.op = "v"      -> IF st.cfg.sampler = "custom" /\ ~ev.race /\ ~st.closed /\ ~st.cfg.disk THEN ReqViol(st, ev, Must(st, ev)) ELSE {}
    [] ev.op = "notify" -> IF st.cfg.sampler = "custom" /\ ~st.closed /\ ~st.cfg.disk THEN NotifyViol(st, ev) ELSE {}
    [] ev.op = "close"  -> IF ev.ret /\ (st.closed => ev.ts = st.closeTs) THEN {} ELSE {"F05.close"}
    [] ev.op = "final"  -> FinalViol(st, ev)
    [] OTHER -> {}

Step(st0, ev) ==
  LET st == [ st0 EXCEPT !.n = @ + 1 ]
  IN
  CASE ev.op = "v" /\ (st.closed \/ ~st.cfg.video) -> st
    [] ev.op = "v" -> LET s1 == VStep(st, ev)
                          s2 == [ s1 EXCEPT !.sync = SyncNext(st, ev),
                                            \* the last frame in assembly that was completed while in sync
                                            !.lastRec = IF ev.f \in s1.comp /\ ev.f \notin st.comp /\ SyncNext(st, ev) = "yes" THEN ev.f ELSE @ ]
                      IN ReqStep(s2, ev)
    \* the frame in assembly is given up: its remaining parts continue nothing
    [] ev.op = "notify" /\ ~st.closed /\ st.cfg.video ->
         ReqStep(IF ev.req > 0 /\ st.sync = "yes" THEN [ st EXCEPT !.sync = "no", !.f = 0 ] ELSE st, ev)
    [] ev.op = "a" /\ ~st.closed /\ st.cfg.audio ->
         LET loss == st.aLoss \/ (st.aLast >= 0 /\ ev.seq # st.aLast + 1)
             opens == ~st.hv /\ ~st.open
         IN  [ AStep(st, ev) EXCEPT !.aLoss = loss, !.aLast = ev.seq,
                         !.open = @ \/ opens, !.openAt = IF opens THEN ev.now ELSE @, !.fa = @ \/ opens,
                         !.as = Append(@, [ seq |-> ev.seq, id |-> ev.id, now |-> ev.now, race |-> ev.race, open |-> st.fa \/ opens,
                                            loss |-> loss, at |-> st.n ]) ]
    [] ev.op = "announce" -> [ st EXCEPT !.hv = st.cfg.video, !.ha = st.cfg.audio ]
    [] ev.op = "snap"  -> [ st EXCEPT !.snaps = Append(@, [ at |-> st.n, prefix |-> ev.prefix, wf |-> ev.wf, nv |-> ev.nv, na |-> ev.na ]) ]
    [] ev.op = "close" -> IF st.closed THEN st ELSE [ st EXCEPT !.closed = TRUE, !.closeTs = ev.ts ]
    [] OTHER -> st
=============================================================================
