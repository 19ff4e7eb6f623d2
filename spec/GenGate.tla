------------------------------ MODULE GenGate ------------------------------
(* Histories of posts and responses for the real gateway: posts (some malformed, some whose client leaves), the    *)
(* responses of their sessions in any order and of all kinds, repeated ones, and those of other sessions.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANT GenLen
VARIABLES n, open, done, hist
Init == n = 0 /\ open = {} /\ done = {} /\ hist = <<>>
Going == Len(hist) < GenLen
Do(a, k, x) == hist' = Append(hist, [ a |-> a, n |-> k, k |-> x ])
Post == /\ Going /\ n < 6 /\ n' = n + 1 /\ open' = open \cup {n + 1} /\ Do("post", n + 1, RandomElement(IF n < 0 THEN {} ELSE { "plain", "plain", "odd", "large", "same" })) /\ done' = done
Poor == /\ Going /\ Do("poor", 0, RandomElement(IF n < 0 THEN {} ELSE { "empty", "get", "put", "head" })) /\ UNCHANGED << n, open, done >>
Resp == /\ Going /\ \E k \in open : open' = open \ {k} /\ done' = done \cup {k}
                   /\ Do("resp", k, RandomElement(IF n < 0 THEN {} ELSE { "ok", "OK", "failed", "nosdp", "bare" }))
        /\ n' = n
Again == Going /\ \E k \in done : Do("again", k, "") /\ UNCHANGED << n, open, done >>
Other == /\ Going /\ Do("other", 0, RandomElement(IF n < 0 THEN {} ELSE { "foreign", "empty", "prefix", "case", "junk", "event" })) /\ UNCHANGED << n, open, done >>
Leave == Going /\ \E k \in open : Do("leave", k, "") /\ UNCHANGED << n, open, done >>
Pause == Going /\ n > 0 /\ Do("pause", 0, "") /\ UNCHANGED << n, open, done >>
Next == Post \/ Post \/ Poor \/ Resp \/ Resp \/ Again \/ Other \/ Leave \/ Pause
Spec == Init /\ [][Next]_<< n, open, done, hist >>
Emit == Len(hist) < GenLen \/ PrintT("GEN:" \o ToJson(hist))
=============================================================================
