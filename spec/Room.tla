-------------------------------- MODULE Room --------------------------------
(* Recordings of LiveKit rooms (L01, L02): what the server of the rooms sees of the recorder.  What the control      *)
(* channel shows of these sessions is judged by Server.tla, too (RoomTrace.tla).  Events:                            *)
(*   req        kind start: request q of session s for the tracks want of room room (a track n is of room n \div 10; *)
(*              new: good if the room lets it in); kind stop, status                                                 *)
(*   join       connection k for request q (0: of none) to a room (0: unknown), with a valid token (tok) or not,     *)
(*              asking for all tracks (auto) or not, when the room has the tracks have                                *)
(*   refused    a connection that was not let in           in     the transport of connection k is up                *)
(*   subscribe  connection k subscribes to (on) track n (0: unknown), or unsubscribes                                *)
(*   blip, rejoin  connection k is cut, and taken up again                                                            *)
(*   ended      the server ended connection k (leave: for good; cut: nobody is let in any more)                      *)
(*   left       the recorder left (how: leave, or closed without)                                                     *)
(*   pub        a message of the recorder: resp (ok), stopped (reason, f: own, ordered, wf, hdr, exists, miss: what  *)
(*              was sent well before the end and lost by nobody but is not in the file; pre:    *)
(*              frames sent long after subscription and before the first recorded one), ...                         *)
(*   settled    open: connections that have not been left; final: files at the end; exit                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Rng(s) == { s[i] : i \in DOMAIN s }
Leave3 == 3500        \* ms: how long leaving may take
Kicked == 5000        \*     noticing that the server has ended a session
Lost == 75000         \*     giving up a server that does not take the recorder back
Fn == [ x \in {} |-> 0 ]
InitSt(cfg) == [ req |-> Fn, conn |-> Fn, act |-> Fn, over |-> {}, asked |-> {} ]
Upd(f, x, v) == (x :> v) @@ f
Active(st, q) == \E s \in DOMAIN st.act : st.act[s] = q
ConnsOf(st, q) == { k \in DOMAIN st.conn : st.conn[k].q = q }
\* the session of a connection is over (or never was), but the connection stays
Idle(st, q) == q \in st.over
Step(st, ev) ==
  CASE ev.op = "req" /\ ev.kind = "start" ->
         [ st EXCEPT !.req = Upd(@, ev.q, [ s |-> ev.s, room |-> ev.room, want |-> Rng(ev.want), good |-> ev.new = "good", due |-> -1 ]) ]
    [] ev.op = "req" /\ ev.kind = "stop" -> IF ev.s \in DOMAIN st.act THEN [ st EXCEPT !.asked = @ \cup {st.act[ev.s]} ] ELSE st
    [] ev.op = "join" ->
         [ st EXCEPT !.conn = Upd(@, ev.k, [ q |-> ev.q, have |-> Rng(ev.have), subs |-> {}, out |-> FALSE, kick |-> -1, lost |-> FALSE,
                                             due |-> IF Idle(st, ev.q) THEN ev.t + Leave3 ELSE -1 ]) ]
    [] ev.op = "subscribe" -> IF ev.k \notin DOMAIN st.conn THEN st
                              ELSE [ st EXCEPT !.conn[ev.k].subs = IF ev.on THEN @ \cup {ev.n} ELSE @ \ {ev.n} ]
    [] ev.op = "ended" -> IF ev.k \notin DOMAIN st.conn THEN st
                          ELSE [ st EXCEPT !.conn[ev.k].out = TRUE, !.conn[ev.k].kick = ev.t, !.conn[ev.k].lost = ev.how = "cut" ]
    [] ev.op = "left" -> IF ev.k \notin DOMAIN st.conn THEN st ELSE [ st EXCEPT !.conn[ev.k].out = TRUE ]
    [] ev.op = "pub" /\ ev.kind = "resp" ->
         LET Q == { q \in DOMAIN st.req : st.req[q].s = ev.s } IN
         IF Q = {} THEN st
         ELSE LET q == CHOOSE q \in Q : \A r \in Q : r <= q IN
              IF ev.ok THEN [ st EXCEPT !.act = Upd(@, ev.s, q) ]
              ELSE [ st EXCEPT !.over = @ \cup {q},
                               !.conn = [ k \in DOMAIN @ |-> IF @[k].q = q /\ ~@[k].out THEN [ @[k] EXCEPT !.due = ev.t + Leave3 ] ELSE @[k] ] ]
    [] ev.op = "pub" /\ ev.kind = "stopped" ->
         IF ev.s \notin DOMAIN st.act THEN st
         ELSE LET q == st.act[ev.s] IN
              [ st EXCEPT !.over = @ \cup {q}, !.act = [ x \in DOMAIN @ \ {ev.s} |-> @[x] ],
                          !.conn = [ k \in DOMAIN @ |-> IF @[k].q = q /\ ~@[k].out THEN [ @[k] EXCEPT !.due = ev.t + Leave3 ] ELSE @[k] ] ]
    [] OTHER -> st
\* by the clock
Late(st, t) ==
  (IF \E k \in DOMAIN st.conn : st.conn[k].due >= 0 /\ ~st.conn[k].out /\ t > st.conn[k].due THEN {"L02.leave!"} ELSE {})
  \cup (IF \E k \in DOMAIN st.conn : /\ st.conn[k].kick >= 0 /\ Active(st, st.conn[k].q)
                                     /\ t > st.conn[k].kick + (IF st.conn[k].lost THEN Lost ELSE Kicked) THEN {"L02.ends!"} ELSE {})
Wanted(st, k) == st.req[st.conn[k].q].want \cap st.conn[k].have
Viol0(st, ev) ==
  CASE ev.op = "exit" -> {"crash"}
    [] ev.op = "harness" -> {"HARNESS"}
    [] ev.op \in {"badanswer", "badsignal"} -> {"L01.signal"}
    [] ev.op = "refused" -> IF ev.q = 0 \/ ~ev.tok \/ ev.room # st.req[ev.q].room THEN {"L01.room"} ELSE {}
    [] ev.op = "join" ->
         (IF ev.q = 0 \/ ~ev.tok \/ ev.auto THEN {"L01.room"}
          ELSE (IF ev.room # st.req[ev.q].room THEN {"L01.room"} ELSE {})
               \cup (IF ConnsOf(st, ev.q) # {} THEN {"L01.room"} ELSE {}))
    [] ev.op = "subscribe" ->
         IF ev.k \notin DOMAIN st.conn \/ st.conn[ev.k].q = 0 THEN {}
         ELSE IF ev.on THEN (IF ev.n \notin Wanted(st, ev.k) THEN {"L01.subs"} ELSE {})
              ELSE IF ~Idle(st, st.conn[ev.k].q) THEN {"L01.subs"} ELSE {}
    [] ev.op = "pub" /\ ev.kind = "resp" ->
         LET Q == { q \in DOMAIN st.req : st.req[q].s = ev.s } IN
         IF Q = {} THEN {}
         ELSE LET q == CHOOSE q \in Q : \A r \in Q : r <= q IN
              IF ev.ok /\ ~(\E k \in ConnsOf(st, q) : TRUE) THEN {"L02.fail"}     \* it was never let in
              ELSE IF ev.ok /\ ~st.req[q].good THEN {"L02.fail"} ELSE {}
    [] ev.op = "pub" /\ ev.kind = "stopped" ->
         (IF ~ev.f.own \/ ~ev.f.ordered THEN {"L01.media"} ELSE {})
         \cup (IF ev.f.miss > 0 THEN {"L01.complete!"} ELSE {})
         \cup (IF ev.f.pre > 0 THEN {"L01.prompt!"} ELSE {})
         \cup (IF ev.f.exists /\ ~(ev.f.wf /\ ev.f.hdr) THEN {"L02.file"} ELSE {})
         \cup (IF ev.s \notin DOMAIN st.act THEN {"L02.once"}
               ELSE LET q == st.act[ev.s] IN
                    IF q \notin st.asked /\ \A k \in ConnsOf(st, q) : st.conn[k].kick < 0 THEN {"L02.stay"} ELSE {})
    [] ev.op = "left" ->       \* leaving is the end of a session
         IF \E s \in DOMAIN st.act : ev.k \in ConnsOf(st, st.act[s]) /\ st.act[s] \notin st.asked THEN {"L02.stay"} ELSE {}
    [] ev.op = "settled" ->
         (IF \E s \in DOMAIN st.act : \E k \in ConnsOf(st, st.act[s]) : ~st.conn[k].out /\ st.conn[k].subs # Wanted(st, k) THEN {"L01.subs!"} ELSE {})
         \cup (IF \E i \in DOMAIN ev.open : ~ Active(st, st.conn[ev.open[i]].q) THEN {"L02.leave!"} ELSE {})
    [] ev.op = "final" -> (IF ~ev.same THEN {"L02.file"} ELSE {}) \cup (IF ev.stray # <<>> THEN {"L02.nothing"} ELSE {})
    [] OTHER -> {}
Viol(st, ev) == Viol0(st, ev) \cup (IF ev.op \in {"settled", "left", "join", "pub", "idle"} THEN Late(st, ev.t) ELSE {})
=============================================================================
