------------------------------ MODULE GenRoom ------------------------------
(* Histories of rooms for the recorder: which rooms let it in and how, what is asked for, published and taken back,  *)
(* what becomes of the media, and how sessions end.  Slow behaviours (rooms that do not answer, servers that are     *)
(* gone) happen at most once per history.                                                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS GenLen, MaySlow
VARIABLES n, on, slow, touched, hist
Init == n = 0 /\ on = {} /\ slow = (IF MaySlow THEN 0 ELSE 1) /\ touched = {} /\ hist = <<>>
Going == Len(hist) < GenLen
\* chosen anew in every state
Pick(S) == RandomElement(IF n < 0 THEN {} ELSE S)
St(a, s, r, m, k, t, o, ms) == [ a |-> a, s |-> s, r |-> r, n |-> m, k |-> k, t |-> t, on |-> o, ms |-> ms ]
Do(x) == hist' = Append(hist, x)
Wants == { <<1>>, <<2>>, <<3>>, <<1, 2>>, <<2, 1>>, <<3, 1>>, <<1, 3, 5>>, <<6, 2>>, <<4, 2>>, <<4>>, <<5>>, <<2, 6, 1>>, <<5, 6>> }
Poor == { "unauth", "unavail", "garbage", "wrong", "cutjoin" }
Start == /\ Going /\ n < 5 /\ n' = n + 1
         /\ LET s == Pick({1, 2, 3})
                r == Pick({1, 2})
                w == Pick(Wants) IN
            Do(St("start", s, r, Pick({0, 1, 2}), "", w, FALSE, 0)) /\ on' = on \cup {s}
         /\ UNCHANGED << slow, touched >>
Refused == /\ Going /\ n < 5 /\ n' = n + 1 /\ Do(St("start", Pick({1, 2, 3}), 3, Pick({0, 1, 2}), Pick(Poor), Pick(Wants), FALSE, 0)) /\ UNCHANGED << on, slow, touched >>
Slow == /\ Going /\ slow = 0 /\ slow' = 1 /\ n' = n
        /\ Do(St("start", Pick({1, 2, 3}), 3, Pick({0, 1, 2}), Pick({ "hang", "noice", "leave", "hanghttp" }), Pick(Wants), FALSE, 0)) /\ UNCHANGED << on, touched >>
Stop == Going /\ on # {} /\ (LET s == Pick(on) IN Do(St(Pick({ "stop", "both" }), s, 0, 0, "", <<>>, FALSE, 0)) /\ on' = on \ {s}) /\ UNCHANGED << n, slow, touched >>
Leave == Going /\ on # {} /\ (LET s == Pick(on) IN Do(St("leave", s, 0, 0, "", <<>>, FALSE, 0)) /\ on' = on \ {s}) /\ UNCHANGED << n, slow, touched >>
Cut == /\ Going /\ on # {} /\ slow = 0 /\ slow' = 2 /\ Len(hist) > GenLen - 4
       /\ (LET s == Pick(on) IN Do(St("cut", s, 0, 0, "", <<>>, FALSE, 0)) /\ on' = on \ {s}) /\ UNCHANGED << n, touched >>
Resume == Going /\ on # {} /\ slow # 2 /\ Do(St("resume", Pick(on), 0, 0, "", <<>>, FALSE, 0)) /\ UNCHANGED << n, on, slow, touched >>
Media == Going /\ on # {} /\ Do(St(Pick({ "media", "mute" }), 0, Pick({1, 2}), Pick({1, 2, 3}), "", <<>>, Pick(BOOLEAN), 0)) /\ UNCHANGED << n, on, slow, touched >>
Publish == /\ Going /\ Cardinality(touched) < 2 /\ LET r == Pick({1, 2}) IN
              Do(St(Pick({ "pub", "unpub" }), 0, r, Pick({1, 2, 3, 4}), "", <<>>, FALSE, 0)) /\ touched' = touched \cup {Len(hist)}
           /\ UNCHANGED << n, on, slow >>
Away == /\ Going /\ Len(hist) > 4 /\ Cardinality(touched) < 2 /\ Do(St("away", 0, Pick({1, 2}), Pick({1, 2}), "", <<>>, FALSE, 0)) /\ touched' = touched \cup {Len(hist)}
        /\ UNCHANGED << n, on, slow >>
Faults == Going /\ on # {} /\ Do(St(Pick({ "faults", "reorder" }), Pick(on), 0, 0, "", <<>>, FALSE, 0)) /\ UNCHANGED << n, on, slow, touched >>
Wait == Going /\ n > 0 /\ Do(St("wait", 0, 0, 0, "", <<>>, FALSE, Pick({ 200, 700, 1500, 2500, 4000 }))) /\ UNCHANGED << n, on, slow, touched >>
Rest == Going /\ n > 0 /\ slow # 2 /\ Do(St("idle", 0, 0, 0, "", <<>>, FALSE, 0)) /\ UNCHANGED << n, on, slow, touched >>
Next == Start \/ Refused \/ Slow \/ Stop \/ Leave \/ Cut \/ Resume \/ Media \/ Publish \/ Away \/ Faults \/ Wait \/ Wait \/ Wait \/ Rest \/ Start
Spec == Init /\ [][Next]_<< n, on, slow, touched, hist >>
Emit == Len(hist) < GenLen \/ PrintT("GEN:" \o ToJson(hist))
=============================================================================
