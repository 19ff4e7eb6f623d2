------------------------------ MODULE MC_Files ------------------------------
(* How the recorder decides about names as designed: a table of the files of active recordings, a look at the    *)
(* directory, and exclusive creation when the first keyframe arrives; beside it somebody who puts files there    *)
(* and takes them away.  Every event is judged by Files.                                                         *)
EXTENDS Files, Json
CONSTANTS Names,     \* indices into AllNames
          MaxRec,    \* recordings
          MaxExt,    \* interferences
          MaxOps, IVF, Weak, GenLen
VARIABLES st, tree, table, recs, used, exts, ops, viol, hist
vars == << st, tree, table, recs, used, exts, ops, viol, hist >>
View == << st, tree, table, recs, used, exts, ops, viol >>

\* name, ends in .webm
AllNames == << [ c |-> << "a.webm" >>, x |-> TRUE ], [ c |-> << "n", "a.webm" >>, x |-> TRUE ], [ c |-> << ".", "n", "..", "a.webm" >>, x |-> TRUE ],
               [ c |-> << "a.webm", "b.webm" >>, x |-> TRUE ], [ c |-> << "..", "o.webm" >>, x |-> TRUE ], [ c |-> << "a.mkv" >>, x |-> FALSE ],
               [ c |-> << "n", "..", "..", "d", "a.webm" >>, x |-> TRUE ], [ c |-> << "", "n", "a.webm" >>, x |-> TRUE ] >>
Copy(p) == LET l == p[Len(p)] IN
           SubSeq(p, 1, Len(p) - 1) \o << CASE l = "a.webm" -> "a.ivf" [] l = "b.webm" -> "b.ivf" [] l = "o.webm" -> "o.ivf" [] OTHER -> "x.ivf" >>
D(p) == [ p |-> p, d |-> TRUE, m |-> 493, c |-> 0 ]
Nd(p, c) == [ p |-> p, d |-> FALSE, m |-> 420, c |-> c ]
Tree0 == { D(<< "d" >>) }
Cfg == [ dir |-> << "d" >>, fmode |-> 420, dmode |-> 493, umask |-> 18, devnull |-> FALSE, ivf |-> IVF, tree |-> << D(<< "d" >>) >> ]
\* modes: 0644 & ~022 = 0644, 0755 & ~022 = 0755
Init == /\ st = InitSt(Cfg) /\ tree = Tree0 /\ table = {} /\ recs = [ k \in {} |-> 0 ] /\ used = 0 /\ exts = 0 /\ ops = 0 /\ viol = {} /\ hist = <<>>

RECURSIVE Seqd(_)
Seqd(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : TRUE IN << x >> \o Seqd(S \ {x})
Give(e, tr, h) == LET x == [ tree |-> Seqd(tr) ] @@ e IN
                  /\ ops < MaxOps /\ viol' = viol \cup Viol(st, x) /\ st' = Step(st, x) /\ tree' = tr /\ ops' = ops + 1
                  /\ hist' = IF GenLen > 0 THEN Append(hist, h) ELSE hist

\* the decision: directories are made before the existence checks, as the code does
Dirs(p) == { D(q) : q \in { q \in Prefixes(p) : Len(q) > 1 /\ ~At(tree, q) } }
Blocked(p) == \E q \in Prefixes(p) : Len(q) > 1 /\ At(tree, q) /\ ~IsDir(tree, q)
New0(i) ==
  LET n == AllNames[i]
      t == Norm(<< "d" >>, n.c)
      k == used + 1
      refuse == ~n.x \/ ~Under(<< "d" >>, t) \/ Blocked(t) \/ (Weak # "under" /\ \E q \in Prefixes(t) : q \in table)
      tr == IF refuse \/ IsDir(tree, SubSeq(t, 1, Len(t) - 1)) THEN tree ELSE tree \cup Dirs(t)
      there == At(tr, t) \/ (IVF /\ At(tr, Copy(t))) \/ (t \in table /\ Weak # "table")
      ok == ~refuse /\ ~there
  IN /\ used < MaxRec /\ used' = k
     /\ Give([ op |-> "new", k |-> k, file |-> n.c, ext |-> n.x, ok |-> ok, path |-> t, ivf |-> Copy(t) ], tr, [ op |-> "new", k |-> k, name |-> i ])
     /\ recs' = IF ok THEN Put(recs, k, [ path |-> t, wrote |-> FALSE, ino |-> 0 ]) ELSE recs
     /\ table' = IF ok THEN table \cup {t} ELSE table
     /\ exts' = exts
Ask == \E i \in Names : New0(i)

\* exclusive creation, then appending to what was created (if it is still there)
Write == \E k \in DOMAIN recs :
  LET r == recs[k]
      parent == SubSeq(r.path, 1, Len(r.path) - 1)
      can == IsDir(tree, parent) /\ (~At(tree, r.path) \/ (Weak = "trunc" /\ ~IsDir(tree, r.path)))
      cp == Copy(r.path)
      made == { Nd(r.path, k) } \cup (IF IVF /\ ~At(tree, cp) THEN { Nd(cp, k) } ELSE {})
      grown == { n \in tree : ~n.d /\ n.c = k /\ n.p \in {r.path, cp} }
      tr == IF r.wrote THEN (tree \ grown) \cup { [ n EXCEPT !.c = k + 100 ] : n \in grown }
            ELSE IF can THEN { n \in tree : n.p # r.path } \cup made ELSE tree
  IN /\ Give([ op |-> "write", k |-> k ], tr, [ op |-> "write", k |-> k ])
     /\ recs' = Put(recs, k, [ r EXCEPT !.wrote = @ \/ can ])
     /\ UNCHANGED << table, used, exts >>
Close == \E k \in DOMAIN recs :
  /\ Give([ op |-> "close", k |-> k ], IF Weak = "tidy" /\ ~recs[k].wrote THEN { n \in tree : n.p # recs[k].path \/ n.d } ELSE tree, [ op |-> "close", k |-> k ])
  /\ recs' = [ x \in DOMAIN recs \ {k} |-> recs[x] ]
  /\ table' = IF Weak = "keep" /\ ~recs[k].wrote THEN table ELSE table \ {recs[k].path}
  /\ UNCHANGED << used, exts >>

\* somebody else
Spots == { << "d", "a.webm" >>, << "d", "n", "a.webm" >>, << "d", "a.ivf" >>, << "d", "n" >> }
Place == \E p \in Spots : /\ exts < MaxExt /\ exts' = exts + 1 /\ ~At(tree, p) /\ IsDir(tree, SubSeq(p, 1, Len(p) - 1))
                          /\ Give([ op |-> "place" ], tree \cup { Nd(p, 999) }, [ op |-> "place", p |-> p ])
                          /\ UNCHANGED << table, recs, used >>
Rm == \E p \in Spots : /\ exts < MaxExt /\ exts' = exts + 1 /\ At(tree, p)
                       /\ Give([ op |-> "rm" ], { n \in tree : n.p # p /\ ~Under(p, n.p) }, [ op |-> "rm", p |-> p ])
                       /\ UNCHANGED << table, recs, used >>
Next == Ask \/ Write \/ Close \/ Place \/ Rm
Spec == Init /\ [][Next]_vars
Ok == viol = {}
Emit == GenLen = 0 \/ ops # GenLen \/ PrintT("GEN:" \o ToJson([ ivf |-> IVF, ops |-> hist ]))
=============================================================================
