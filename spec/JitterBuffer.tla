---------------------------- MODULE JitterBuffer ----------------------------
(* The receive-side reordering buffer (J01, J02).                                                   *)
(* Abstract state st:                                                                               *)
(*   cur    the next number to release; everything below it has been released, passed over or given up *)
(*   end    the highest number put in                                                               *)
(*   held   number -> packet, the packets put in and not yet released (first one wins)              *)
(*   timers number -> time of the first poll that found it missing at cur                           *)
(* The window are the size numbers up to end; what falls out of it is lost.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Max(a, b) == IF a > b THEN a ELSE b
Range(f) == { f[x] : x \in DOMAIN f }
Restrict(f, S) == [ x \in (DOMAIN f) \cap S |-> f[x] ]
EmptyFn == [ x \in {} |-> 0 ]

InitSt(size, timeout) ==
  [ size |-> size, timeout |-> timeout, started |-> FALSE, cur |-> 0, end |-> -1,
    held |-> EmptyFn, timers |-> EmptyFn, last |-> -1 ]

\* everything at or below end - size is out of the window
Slide(st) ==
  LET lo == st.end - st.size + 1
  IN  [ st EXCEPT !.cur = Max(@, lo), !.held = Restrict(@, { x \in DOMAIN @ : x >= lo }) ]

AddStep(st, s, t) ==
  IF ~st.started
  THEN Slide([ st EXCEPT !.started = TRUE, !.cur = s, !.end = s, !.held = s :> t ])
  ELSE IF s <= st.end - st.size THEN st                        \* too old
  ELSE IF s < st.cur THEN Slide([ st EXCEPT !.end = Max(@, s) ])  \* already passed over
  ELSE IF s \in DOMAIN st.held THEN st                          \* duplicate
  ELSE Slide([ st EXCEPT !.end = Max(@, s), !.held = @ @@ (s :> t) ])

\* giving up on the number being waited for; for any other number this is a no-op
SkipStep(st, s) ==
  IF s = st.cur THEN [ st EXCEPT !.cur = s + 1, !.held = Restrict(@, DOMAIN @ \ {s}) ] ELSE st

RECURSIVE RunEnd(_, _)
RunEnd(st, c) == IF c + 1 \in DOMAIN st.held THEN RunEnd(st, c + 1) ELSE c

\* What a poll at time now must do: [out: sequence of numbers, st: next state, skip, last: last number passed over]
RECURSIVE PollFrom(_, _, _, _)
PollFrom(st, now, skip, last) ==
  IF st.cur > st.end THEN [ out |-> <<>>, st |-> st, skip |-> skip, last |-> last ]
  ELSE IF st.cur \in DOMAIN st.held
  THEN LET e == RunEnd(st, st.cur)
           out == [ i \in 1 .. (e - st.cur + 1) |-> st.cur + i - 1 ]
       IN [ out |-> out, skip |-> skip, last |-> last,
            st |-> [ st EXCEPT !.cur = e + 1, !.held = Restrict(@, { x \in DOMAIN @ : x > e }),
                               !.timers = Restrict(@, { x \in DOMAIN @ : x > e }), !.last = e ] ]
  ELSE IF st.cur \notin DOMAIN st.timers
  THEN [ out |-> <<>>, skip |-> skip, last |-> last, st |-> [ st EXCEPT !.timers = @ @@ (st.cur :> now) ] ]
  ELSE IF now - st.timers[st.cur] < st.timeout
  THEN [ out |-> <<>>, skip |-> skip, last |-> last, st |-> st ]
  ELSE PollFrom([ st EXCEPT !.cur = @ + 1 ], now, TRUE, st.cur)

Poll(st, now) == PollFrom(st, now, FALSE, -1)

SeqOf(st, t) == CHOOSE s \in DOMAIN st.held : st.held[s] = t

\* The rules a poll that released the packets tags (in this order) may break
PollViol(st, ev) ==
  LET exp == Poll(st, ev.now)
      known == \A i \in DOMAIN ev.out : ev.out[i] \in Range(st.held)
      seqs == [ i \in DOMAIN ev.out |-> SeqOf(st, ev.out[i]) ]
      expTags == [ i \in DOMAIN exp.out |-> st.held[exp.out[i]] ]
  IN  (IF known THEN {} ELSE {"J01.known"})
      \cup (IF known /\ (\E i \in DOMAIN ev.out : (i > 1 /\ seqs[i] <= seqs[i-1]) \/ seqs[i] <= st.last)
            THEN {"J01.order"} ELSE {})
      \cup (IF ev.out # expTags THEN {"J02.release"} ELSE {})
      \cup (IF ev.out = expTags /\ ev.out # <<>> /\ ev.skip # exp.skip THEN {"J02.flag"} ELSE {})
      \cup (IF ev.out = expTags /\ ev.out # <<>> /\ ev.skip /\ exp.skip /\ ~(ev.named /\ ev.last = exp.last)
            THEN {"J02.name"} ELSE {})

Viol(st, ev) ==
  CASE ev.op = "poll"  -> PollViol(st, ev)
    [] ev.op = "crash" -> {"J01.crash", "J02.crash"}
    [] OTHER -> {}

Step(st, ev) ==
  CASE ev.op = "add"  -> AddStep(st, ev.s, ev.t)
    [] ev.op = "poll" -> Poll(st, ev.now).st
    [] ev.op = "skip" -> SkipStep(st, ev.s)
    [] OTHER -> st
=============================================================================
