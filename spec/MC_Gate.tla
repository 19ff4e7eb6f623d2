------------------------------ MODULE MC_Gate ------------------------------
(* The gateway as designed: every post has a task that makes a session id, enters itself in a table with a box for *)
(* one response, publishes the start request and waits for the box or the end of its time; one listener takes every *)
(* response there is, takes the entry of its session out of the table, and puts the response into the box.  Time    *)
(* passes in steps of ten seconds.  Weak # "" leaves something out.                                                 *)
EXTENDS Gate, SequencesExt
CONSTANTS N, MaxT, MaxFor, MaxDup, Weak
VARIABLES pc, sid, at, table, box, chan, blocked, nfor, ndup, answered, t, st, viol
vars == << pc, sid, at, table, box, chan, blocked, nfor, ndup, answered, t, st, viol >>
K == 1 .. N
WellK(k) == k # 1                 \* the first post is malformed
Name(k) == IF Weak = "clock" THEN << t >> ELSE << k >>
Ms(x) == x * 10000
Judge(e) == viol' = Viol(st, e) /\ st' = Step(st, e)
Same == UNCHANGED << st, viol >>
Init == /\ pc = [ k \in K |-> "new" ] /\ sid = [ k \in K |-> <<>> ] /\ at = [ k \in K |-> 0 ] /\ table = {} /\ box = [ k \in K |-> <<>> ]
        /\ chan = <<>> /\ blocked = FALSE /\ nfor = 0 /\ ndup = 0 /\ answered = {} /\ t = 0 /\ st = InitSt(0) /\ viol = {}
Post0(k) == /\ pc[k] = "new" /\ (\A j \in K : j < k => pc[j] # "new")
           /\ pc' = [ pc EXCEPT ![k] = IF WellK(k) \/ Weak = "empty" THEN "asked" ELSE "bad" ] /\ at' = [ at EXCEPT ![k] = t ]
           /\ Judge([ op |-> "post", k |-> k, well |-> WellK(k), t |-> Ms(t) ])
           /\ UNCHANGED << sid, table, box, chan, blocked, nfor, ndup, answered, t >>
Bad(k) == /\ pc[k] = "bad" /\ pc' = [ pc EXCEPT ![k] = "done" ] /\ Judge([ op |-> "reply", k |-> k, status |-> 422, r |-> 0, t |-> Ms(t) ])
          /\ UNCHANGED << sid, at, table, box, chan, blocked, nfor, ndup, answered, t >>
Enter(k) == /\ pc[k] = "asked" /\ sid' = [ sid EXCEPT ![k] = Name(k) ] /\ pc' = [ pc EXCEPT ![k] = "named" ]
            /\ table' = (IF Weak = "late" THEN table ELSE { e \in table : e[1] # Name(k) } \cup { << Name(k), k >> })
            /\ UNCHANGED << at, box, chan, blocked, nfor, ndup, answered, t >> /\ Same
Publish(k) == /\ pc[k] = "named" /\ pc' = [ pc EXCEPT ![k] = IF Weak = "late" THEN "out" ELSE "waits" ]
              /\ Judge([ op |-> "start", s |-> ToString(sid[k]), file |-> ToString(sid[k]), k |-> k, t |-> Ms(t) ])
              /\ UNCHANGED << sid, at, table, box, chan, blocked, nfor, ndup, answered, t >>
LateEnter(k) == /\ pc[k] = "out" /\ pc' = [ pc EXCEPT ![k] = "waits" ] /\ table' = table \cup { << sid[k], k >> }
                /\ UNCHANGED << sid, at, box, chan, blocked, nfor, ndup, answered, t >> /\ Same
\* the recorder answers, well or not; others' responses and repeated ones come, too
Respond(k) == /\ pc[k] \in {"out", "waits", "done"} /\ sid[k] # <<>> /\ k \notin answered /\ answered' = answered \cup {k}
              /\ \E ok \in BOOLEAN : LET e == [ op |-> "resp", s |-> ToString(sid[k]), ok |-> ok, r |-> IF ok THEN k ELSE 0, t |-> Ms(t) ] IN
                 Judge(e) /\ chan' = Append(chan, << sid[k], ok, IF ok THEN k ELSE 0 >>)
              /\ UNCHANGED << pc, sid, at, table, box, blocked, nfor, ndup, t >>
Foreign == /\ nfor < MaxFor /\ nfor' = nfor + 1 /\ Judge([ op |-> "resp", s |-> "other", ok |-> TRUE, r |-> 99, t |-> Ms(t) ])
           /\ chan' = Append(chan, << << 99 >>, TRUE, 99 >>) /\ UNCHANGED << pc, sid, at, table, box, blocked, ndup, answered, t >>
Again == /\ ndup < MaxDup /\ \E k \in answered : \E x \in Rng(st.resp) :
               /\ x.s = ToString(sid[k]) /\ ndup' = ndup + 1 /\ Judge([ op |-> "resp", s |-> x.s, ok |-> x.ok, r |-> x.r, t |-> Ms(t) ])
               /\ chan' = Append(chan, << sid[k], x.ok, x.r >>)
         /\ UNCHANGED << pc, sid, at, table, box, blocked, nfor, answered, t >>
Listen == /\ chan # <<>> /\ ~blocked /\ chan' = Tail(chan)
          /\ LET m == Head(chan)
                 E == IF Weak = "any" THEN { e \in table : TRUE } ELSE { e \in table : e[1] = m[1] } IN
             IF E = {} THEN UNCHANGED << table, box, blocked >>
             ELSE LET e == CHOOSE e \in E : TRUE IN
                  IF box[e[2]] # <<>> \/ (Weak = "dup" /\ pc[e[2]] = "done")
                  THEN blocked' = TRUE /\ UNCHANGED << table, box >>
                  ELSE /\ box' = [ box EXCEPT ![e[2]] = << m >> ] /\ table' = (IF Weak = "dup" THEN table ELSE table \ {e})
                       /\ blocked' = blocked
          /\ UNCHANGED << pc, sid, at, nfor, ndup, answered, t >> /\ Same
Reply(k) == /\ pc[k] = "waits" /\ box[k] # <<>> /\ pc' = [ pc EXCEPT ![k] = "done" ]
            /\ table' = (IF Weak = "dup" THEN table ELSE { e \in table : e[2] # k })
            /\ Judge([ op |-> "reply", k |-> k, status |-> IF box[k][1][2] \/ Weak = "failok" THEN 200 ELSE 500, r |-> box[k][1][3], t |-> Ms(t) ])
            /\ UNCHANGED << sid, at, box, chan, blocked, nfor, ndup, answered, t >>
GiveUp(k) == /\ pc[k] = "waits" /\ box[k] = <<>> /\ t >= at[k] + (IF Weak = "hasty" THEN 0 ELSE 3) /\ Weak # "forever" /\ pc' = [ pc EXCEPT ![k] = "done" ]
             /\ table' = { e \in table : e[2] # k }
             /\ Judge([ op |-> "reply", k |-> k, status |-> 500, r |-> 0, t |-> Ms(t) ])
             /\ UNCHANGED << sid, at, box, chan, blocked, nfor, ndup, answered, t >>
Task(k) == Post0(k) \/ Respond(k)
Work(k) == Bad(k) \/ Enter(k) \/ Publish(k) \/ LateEnter(k) \/ Reply(k) \/ GiveUp(k)
Urgent == ENABLED Listen \/ \E k \in K : ENABLED Work(k)
Tick == /\ ~Urgent /\ t < MaxT /\ t' = t + 1
        /\ Judge([ op |-> "end", t |-> Ms(t'), open |-> SetToSeq({ k \in K : pc[k] \notin {"new", "done"} }) ])
        /\ UNCHANGED << pc, sid, at, table, box, chan, blocked, nfor, ndup, answered >>
Posts == viol = {} /\ \E k \in K : Post0(k)
Responds == viol = {} /\ \E k \in K : Respond(k)
Works == viol = {} /\ \E k \in K : Work(k)
Next == Posts \/ Responds \/ Works \/ Foreign \/ Again \/ Listen \/ Tick
Spec == Init /\ [][Next]_vars
Right == viol = {}
=============================================================================
