------------------------------- MODULE GenNet -------------------------------
(* Schedules for the real recorder: what happened to each packet in a behaviour of the design.       *)
EXTENDS MC_Net
Draw(i, k) == IF RandomElement(1 .. (3 + 0 * k)) > 1 THEN Plain ELSE RandomElement(IF k < 0 THEN {} ELSE Fates)
GenInit ==
  /\ \E k \in 1 .. 120 : fate = [ i \in Pk |-> Draw(i, k) ]
  /\ now = 0 /\ net = {} /\ arr = [ i \in Pk |-> -1 ] /\ first = 0 /\ asks = <<>>
  /\ jb = [ next |-> 0, end |-> 0, held |-> {}, since |-> -1, gone |-> {} ]
  /\ asm = [ cur |-> 0, want |-> 0, last |-> 0, ok |-> FALSE, bad |-> FALSE, out |-> <<>> ]
  /\ viol = {} /\ fin = FALSE
GenSpec == GenInit /\ [][Next]_vars
\* 0 arrives, 1 lost until asked for, 2 lost for good, 3 late, 4 twice
Kind(i) == CASE fate[i].d < 0 /\ arr[i] >= 0 -> 1 [] fate[i].d < 0 -> 2 [] fate[i].twice -> 4 [] fate[i].d > 0 -> 3 [] OTHER -> 0
Quiet == [ i \in 1 .. 20 |-> 0 ]
Plan(v, a) == [ video |-> v, audio |-> a, mode |-> "recover", nack |-> FALSE, ms |-> 2500, answer |-> 1 + (Len(asks) % 2), loss |-> 0, burst |-> 1,
                delay |-> 10 + 25 * (Len(asks) % 3), vseq |-> 65450 + ((7 * Len(asks)) % 80), aseq |-> 65500,
                fates |-> [ i \in Pk |-> Kind(i) ] \o Quiet ]
Job == [ timeout |-> 400, buffer |-> 512, custom |-> Len(asks) % 4 # 3, plans |-> << Plan(TRUE, FALSE), Plan(FALSE, TRUE) >> ]
Emit == ~fin \/ PrintT("GEN:" \o ToJson(Job))
=============================================================================
