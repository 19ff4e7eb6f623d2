-------------------------------- MODULE Gate --------------------------------
(* The HTTP gateway (H01).  Events, in the order in which they happened:                                            *)
(*   post   offer k was posted (well: a POST with a body; not: anything else)                                       *)
(*   start  a start request was published on the request channel: its session s, file name file, and the post k     *)
(*          whose body it carries (0: none)                                                                          *)
(*   resp   a start response was delivered on the event channel: session s, ok (with an answer), answer r            *)
(*   reply  post k was answered: status, and the answer r it carries (0: none)                                       *)
(*   rec    the recording of post k's session: own (it has that peer's media and no other)                           *)
(*   end    nothing more happens; open: the posts still waiting                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Timeout == 30000
InitSt(cfg) == [ posts |-> <<>>, starts |-> <<>>, resp |-> <<>>, done |-> {} ]
Rng(s) == { s[i] : i \in DOMAIN s }
StartOf(st, k) == { x \in Rng(st.starts) : x.k = k }
First(st, s) == LET I == { i \in DOMAIN st.resp : st.resp[i].s = s } IN
                IF I = {} THEN << >> ELSE << st.resp[CHOOSE i \in I : \A j \in I : i <= j] >>
Step(st, ev) ==
  CASE ev.op = "post" -> [ st EXCEPT !.posts = Append(@, [ k |-> ev.k, well |-> ev.well, t |-> ev.t ]) ]
    [] ev.op = "start" -> [ st EXCEPT !.starts = Append(@, [ k |-> ev.k, s |-> ev.s, file |-> ev.file, t |-> ev.t ]) ]
    [] ev.op = "resp" -> [ st EXCEPT !.resp = Append(@, [ s |-> ev.s, ok |-> ev.ok, r |-> ev.r, t |-> ev.t ]) ]
    [] ev.op = "reply" -> [ st EXCEPT !.done = @ \cup {ev.k} ]
    [] OTHER -> st
Post(st, k) == CHOOSE p \in Rng(st.posts) : p.k = k
Good(status) == status >= 200 /\ status < 300
Viol(st, ev) ==
  CASE ev.op = "crash" \/ (ev.op = "exit" /\ ev.panic) -> {"crash"}
    [] ev.op = "exit" -> {"H01.exit"}
    [] ev.op = "start" ->
         (IF ev.k = 0 \/ StartOf(st, ev.k) # {} \/ (ev.k # 0 /\ ~Post(st, ev.k).well) THEN {"H01.once"} ELSE {})
         \cup (IF ev.s = "" \/ ev.file = "" \/ \E x \in Rng(st.starts) : x.s = ev.s \/ x.file = ev.file THEN {"H01.own"} ELSE {})
    [] ev.op = "reply" ->
         LET p == Post(st, ev.k)
             S == StartOf(st, ev.k)
             F == IF S = {} THEN <<>> ELSE First(st, (CHOOSE x \in S : TRUE).s) IN
         IF ~p.well THEN (IF ev.status >= 400 /\ ev.status < 500 THEN {} ELSE {"H01.malformed"})
         ELSE (IF ev.status = 0 THEN {"H01.reply"} ELSE {})
              \cup (IF S = {} THEN {"H01.once"} ELSE {})
              \cup (IF Good(ev.status) /\ ~ \E x \in Rng(st.resp) : x.ok /\ x.r = ev.r /\ \E y \in S : y.s = x.s THEN {"H01.answer"} ELSE {})
              \cup (IF ~Good(ev.status) /\ F # <<>> /\ F[1].ok /\ F[1].t < p.t + Timeout - 1000 THEN {"H01.refuse"} ELSE {})
              \cup (IF ~Good(ev.status) /\ F = <<>> /\ ev.t < p.t + Timeout \div 10 THEN {"H01.hasty"} ELSE {})
              \cup (IF F # <<>> /\ ev.t > F[1].t + 3000 /\ ev.t > p.t + 3000 THEN {"H01.wait!"} ELSE {})
              \cup (IF ev.t > p.t + Timeout + 5000 THEN {"H01.wait!"} ELSE {})
    [] ev.op = "rec" -> IF ev.own THEN {} ELSE {"H01.media!"}
    [] ev.op = "end" ->
         IF \E p \in Rng(st.posts) : p.k \notin st.done /\ p.k \in Rng(ev.open) /\ ev.t > p.t + Timeout + 5000 THEN {"H01.wait!"} ELSE {}
    [] OTHER -> {}
=============================================================================
