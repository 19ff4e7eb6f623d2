-------------------------------- MODULE Nack --------------------------------
(* NACK encoding (J05): a pair names a number and a bitmap of the 16 numbers after it.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS M, B    \* number space and bits per pair

InitSt(c) == [ n |-> 0 ]
D(a, b) == (b - a) % M

Bit(m, i) == (m \div (2 ^ i)) % 2 = 1

\* what one pair stands for, in order
PairNames(p) == << p[1] >> \o
  SelectSeq([ i \in 1 .. B |-> IF Bit(p[2], i - 1) THEN (p[1] + i) % M ELSE -1 ], LAMBDA x : x >= 0)

RECURSIVE Decode(_)
Decode(ps) == IF ps = <<>> THEN <<>> ELSE PairNames(Head(ps)) \o Decode(Tail(ps))

\* the fewest pairs that can name an ascending list
RECURSIVE Fewest(_, _)
Fewest(list, i) ==
  IF i > Len(list) THEN 0
  ELSE LET nxt == IF \E j \in i + 1 .. Len(list) : D(list[i], list[j]) > B
                  THEN CHOOSE j \in i + 1 .. Len(list) : D(list[i], list[j]) > B /\ \A k \in i + 1 .. j - 1 : D(list[i], list[k]) <= B
                  ELSE Len(list) + 1
       IN 1 + Fewest(list, nxt)

Viol(st, ev) ==
  CASE ev.op = "enc" -> (IF Decode(ev.pairs) = ev.in THEN {} ELSE {"J05.encode"})
                        \cup (IF ev.dec = ev.in THEN {} ELSE {"J05.roundtrip"})
                        \cup (IF Len(ev.pairs) = Fewest(ev.in, 1) THEN {} ELSE {"J05.count"})
    [] ev.op = "dec" -> IF ev.dec = Decode(ev.pairs) THEN {} ELSE {"J05.decode"}
    [] ev.op = "crash" -> {"J05.crash"}
Step(st, ev) == [ n |-> st.n + 1 ]
=============================================================================
