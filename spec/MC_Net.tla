------------------------------- MODULE MC_Net -------------------------------
(* A video session over a faulty network as designed: a sender that answers requests, a network that *)
(* loses, delays, reorders and duplicates, and a receiver made of a log of what arrived (requests),  *)
(* a buffer that waits for missing packets for a while (order), and an assembler (whole frames that  *)
(* can be decoded).  Whatever happened, the history must satisfy the rules of Net.                   *)
EXTENDS Net, Json
CONSTANTS Layout,   \* frame of each packet
          KeyFrames,
          Timeout, MaxDelay, Lost, \* at most so many first transmissions lost
          Odd,      \* at most so many packets delayed or duplicated
          Drain,    \* ticks after the last packet
          Weak      \* which safeguard is left out

VARIABLES fate, now, net, arr, first, asks, jb, asm, viol, fin
vars == << fate, now, net, arr, first, asks, jb, asm, viol, fin >>
L7 == << 1, 2, 3, 3, 3, 4, 4 >>
L12 == << 1, 2, 2, 2, 3, 4, 4, 5, 6, 6, 7, 7 >>
L9 == << 1, 2, 3, 3, 3, 4, 4, 5, 6 >>
N == Len(Layout)
Pk == 1 .. N
FirstOf(i) == i = 1 \/ Layout[i - 1] # Layout[i]
LastOf(i) == i = N \/ Layout[i + 1] # Layout[i]
KeyOf(i) == Layout[i] \in KeyFrames

\* how a packet travels at first: so many ticks (and whether twice), or not at all
Fates == { [ d |-> d, twice |-> w ] : d \in 0 .. MaxDelay, w \in BOOLEAN } \cup { [ d |-> -1, twice |-> FALSE ] }
Plain == [ d |-> 0, twice |-> FALSE ]

Init ==
  /\ fate \in { f \in [ Pk -> Fates ] : /\ Cardinality({ i \in Pk : f[i].d < 0 }) <= Lost
                                       /\ Cardinality({ i \in Pk : f[i].d >= 0 /\ f[i] # Plain }) <= Odd }
  /\ now = 0 /\ net = {} /\ arr = [ i \in Pk |-> -1 ] /\ first = 0 /\ asks = <<>>
  /\ jb = [ next |-> 0, end |-> 0, held |-> {}, since |-> -1, gone |-> {} ]
  /\ asm = [ cur |-> 0, want |-> 0, last |-> 0, ok |-> FALSE, bad |-> FALSE, out |-> <<>> ]
  /\ viol = {} /\ fin = FALSE

\* ---- assembler: takes packets in order; want: the number that would follow, last: the last whole frame ----
Assemble(a, i) ==
  LET gap == a.want # 0 /\ a.want # i
      broken == gap /\ a.cur # 0 /\ Weak # "gap"
      a1 == [ a EXCEPT !.want = i + 1, !.ok = IF broken THEN FALSE ELSE @, !.cur = IF broken THEN 0 ELSE @, !.bad = gap /\ ~FirstOf(i) ]
      \* a new frame: does it follow the last one?
      a2 == IF FirstOf(i) THEN IF KeyOf(i) THEN [ a1 EXCEPT !.ok = TRUE, !.cur = Layout[i] ]
                               ELSE IF a1.ok /\ (a1.last = Layout[i] - 1 \/ Weak = "ref") THEN [ a1 EXCEPT !.cur = Layout[i] ]
                               ELSE [ a1 EXCEPT !.ok = FALSE, !.cur = 0 ]
            ELSE IF a1.cur = 0 THEN [ a1 EXCEPT !.ok = FALSE ] ELSE a1
  IN IF a2.cur # 0 /\ LastOf(i) THEN [ a2 EXCEPT !.out = Append(@, IF a2.bad THEN 0 ELSE a2.cur), !.last = a2.cur, !.cur = 0 ] ELSE a2

RECURSIVE AssembleAll(_, _)
AssembleAll(a, s) == IF s = <<>> THEN a ELSE AssembleAll(Assemble(a, Head(s)), Tail(s))

\* ---- buffer: what a packet that arrives releases ----
RECURSIVE Release(_, _)
Release(b, out) ==
  IF b.next > b.end THEN [ b |-> b, out |-> out ]
  ELSE IF b.next \in b.held THEN Release([ b EXCEPT !.next = @ + 1, !.held = @ \ {b.next}, !.since = -1 ], Append(out, b.next))
  ELSE IF out # <<>> THEN [ b |-> b, out |-> out ]   \* looked for at the next packet
  ELSE IF b.since < 0 THEN [ b |-> [ b EXCEPT !.since = now ], out |-> out ]
  ELSE IF now - b.since < (IF Weak = "hasty" THEN 1 ELSE Timeout) THEN [ b |-> b, out |-> out ]
  ELSE Release([ b EXCEPT !.next = @ + 1, !.since = -1 ], out)

Take(b, i) ==
  IF b.next = 0 THEN Release([ b EXCEPT !.next = i, !.end = i, !.held = {i} ], <<>>)
  ELSE IF i < b.next THEN IF Weak = "dups" THEN [ b |-> b, out |-> << i >> ] ELSE Release(b, <<>>)
  ELSE Release([ b EXCEPT !.held = @ \cup {i}, !.end = IF i > @ THEN i ELSE @ ], <<>>)

\* ---- one packet arrives ----
Arrive(x) ==
  /\ x \in net /\ x.at <= now
  /\ LET r == Take(jb, x.i)
     IN /\ jb' = r.b
        /\ asm' = AssembleAll(asm, r.out)
  /\ net' = net \ {x}
  /\ arr' = [ arr EXCEPT ![x.i] = IF @ < 0 THEN now ELSE @ ]
  /\ first' = IF first = 0 THEN x.i ELSE first
  /\ UNCHANGED << fate, now, asks, viol, fin >>

Due == { x \in net : x.at <= now }
Newest == IF \E i \in Pk : arr[i] >= 0 THEN CHOOSE i \in Pk : arr[i] >= 0 /\ \A j \in Pk : arr[j] >= 0 => j <= i ELSE 0
Counted(i) == Cardinality({ n \in 1 .. Len(asks) : asks[n].i = i })
Missing == IF Newest = 0 THEN {} ELSE { i \in Pk : i < Newest - Behind + 1 /\ i > first /\ (arr[i] < 0 \/ Weak = "again") }
RECURSIVE Asc(_)
Asc(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : x <= y IN << m >> \o Asc(S \ {m})

\* ---- a tick: a round of requests, of which the sender answers some; then the next packet is sent ----
TickA(answered) ==
  LET ask == IF Weak = "mute" THEN {} ELSE { i \in Missing : Counted(i) < Attempts \/ Weak = "ever" }
      give == { i \in Missing : Counted(i) >= Attempts /\ arr[i] < 0 }
      n == now + 1
  IN /\ Due = {} /\ now < N + Drain /\ now' = n
     /\ answered \subseteq ask
     /\ asks' = asks \o [ k \in 1 .. Cardinality(ask) |-> [ i |-> Asc(ask)[k], t |-> now ] ]
     /\ jb' = IF jb.next \in give THEN [ jb EXCEPT !.next = @ + 1, !.since = -1 ] ELSE jb
     /\ net' = net \cup { [ i |-> i, at |-> n, c |-> 3 ] : i \in answered }
                   \cup (IF n > N \/ fate[n].d < 0 THEN {} ELSE { [ i |-> n, at |-> n + fate[n].d, c |-> 1 ] })
                   \cup (IF n > N \/ ~fate[n].twice THEN {} ELSE { [ i |-> n, at |-> n + fate[n].d + 1, c |-> 2 ] })
     /\ UNCHANGED << fate, arr, first, asm, viol, fin >>

History ==
  [ op |-> "fin", s |-> 1, v |-> TRUE, a |-> FALSE, nack |-> FALSE, pids |-> TRUE, ended |-> TRUE, end |-> now, exists |-> TRUE, wf |-> TRUE,
    ha |-> [ first |-> 0, pk |-> <<>>, ask |-> <<>>, bl |-> <<>> ],
    hv |-> [ first |-> first, pk |-> [ i \in Pk |-> [ f |-> Layout[i], key |-> KeyOf(i), last |-> LastOf(i), arr |-> arr[i] ] ],
             ask |-> asks,
             bl |-> [ n \in 1 .. Len(asm.out) |-> [ f |-> asm.out[n], t |-> 0, key |-> asm.out[n] \in KeyFrames ] ] ] ]
End == /\ now = N + Drain /\ Due = {} /\ ~fin /\ fin' = TRUE
       /\ viol' = Viol(InitSt([ custom |-> TRUE, timeout |-> Timeout ]), History)
       /\ UNCHANGED << fate, now, net, arr, first, asks, jb, asm >>

Arrives == \E x \in net : Arrive(x)
Ticks == \E S \in SUBSET Missing : TickA(S)
Next == Arrives \/ Ticks \/ End
Spec == Init /\ [][Next]_vars
Ok == viol = {}
=============================================================================
