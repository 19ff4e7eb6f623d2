----------------------------- MODULE MC_Config -----------------------------
(* The loader as designed: defaults, then the file, then the environment, each laid over what was there; settings *)
(* of the control channel's adapters are in a map that a layer replaces as a whole, so what it leaves out has to   *)
(* be put back.  A reload starts from the defaults again; sessions keep a copy of what they were started with.     *)
(* Weak # "" leaves something out.                                                                                  *)
EXTENDS Config, Json
CONSTANTS MaxReload, MaxAsk, Pool, Weak
VARIABLES file, env, cur, sess, n, st, viol
vars == << file, env, cur, sess, n, st, viol >>
Dir == << "recorder", "directory" >>
Custom == << "recorder", "useCustomSampler" >>
Addr == << "pubsub", "adapters", "redis", "address" >>
Pass == << "pubsub", "adapters", "redis", "password" >>
Some == IF Pool = "all" THEN { Dir, Custom, Addr, Pass } ELSE IF Pool = "bool" THEN { Custom, Addr } ELSE { Dir, Addr, Pass }
InMap(s) == s \in { Addr, Pass }
Values(s) == IF s = Custom THEN { "true", "false" } ELSE { "", "x" }
\* every layer that gives some of these settings
Layers == UNION { { { [ s |-> x, v |-> << << <<>>, f[x] >> >> ] : x \in D } : f \in [ D -> {"", "x", "true", "false"} ] } : D \in SUBSET Some }
Ok(layer) == \A r \in layer : r.v[1][2] \in Values(r.s)
RECURSIVE SeqOf(_)
SeqOf(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN Append(SeqOf(S \ {x}), x)
Good == { SeqOf(x) : x \in { y \in Layers : Ok(y) } }
Zero(v) == v = { << <<>>, "" >> } \/ v = { << <<>>, "false" >> }
Over(base, layer) ==
  [ s \in Settings |->
      IF Has(layer, s) /\ ~(Weak = "zero" /\ Zero(Value(layer, s))) THEN Value(layer, s)
      ELSE IF InMap(s) /\ \E x \in Some : InMap(x) /\ Has(layer, x) THEN {}   \* the map was replaced
      ELSE base[s] ]
PutBack(base, loaded) == [ s \in Settings |-> IF loaded[s] = {} /\ Weak # "whole" THEN base[s] ELSE loaded[s] ]
Load(f, e, from) == IF Weak = "order" THEN LET a == PutBack(from, Over(from, e)) IN PutBack(a, Over(a, f))
                    ELSE LET a == PutBack(from, Over(from, f)) IN PutBack(a, Over(a, e))
Leaves(c) == UNION { { << s \o l[1], l[2] >> : l \in c[s] } : s \in Settings }
Seen(c) == SeqOf({ x \in Leaves(c) : x[1] \in Some })
Emit1(e) == viol' = Viol(st, e) /\ st' = Step(st, e)

Init == /\ file \in Good /\ env \in Good
        /\ cur = Load(file, env, Defaults) /\ sess = <<>> /\ n = 0
        /\ st = InitSt([ file |-> file, env |-> env ]) /\ viol = {}
Reload == \E f \in Good, b \in BOOLEAN :
          /\ n < MaxReload /\ n' = n + 1
          /\ Emit1([ op |-> "reload", file |-> f, broken |-> b ])
          /\ IF b THEN cur' = (IF Weak = "half" THEN Load(SubSeq(f, 1, Len(f) \div 2), env, cur) ELSE cur)
             ELSE cur' = Load(f, env, IF Weak = "keep" THEN cur ELSE Defaults)
          /\ file' = (IF b THEN file ELSE f) /\ UNCHANGED << env, sess >>
Ask == /\ Len(sess) < MaxAsk /\ sess' = Append(sess, cur)
       /\ Emit1([ op |-> "req", n |-> Len(sess) + 1 ]) /\ UNCHANGED << file, env, cur, n >>
Look == \E i \in 0 .. Len(sess) :
        /\ Emit1([ op |-> "seen", n |-> i, obs |-> Seen(IF i = 0 \/ Weak = "live" THEN cur ELSE sess[i]) ])
        /\ UNCHANGED << file, env, cur, sess, n >>
Dump == \E s \in Some \cup { <<>>, << "recorder" >>, << "recorder", "bogus" >>, Dir \o << "0" >> } :
        LET b == Below(Leaves(cur), s) IN
        /\ n = 0 /\ sess = <<>>
        /\ Emit1([ op |-> "dump", key |-> s, ok |-> b # {}, crash |-> FALSE, leaves |-> SeqOf(b) ])
        /\ UNCHANGED << file, env, cur, sess, n >>
Next == viol = {} /\ (Reload \/ Ask \/ Look \/ Dump)
Spec == Init /\ [][Next]_vars
Right == viol = {}
View == << file, env, cur, sess, n, viol >>
=============================================================================
