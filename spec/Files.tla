-------------------------------- MODULE Files --------------------------------
(* Where recordings go: names, directories, modes, and who owns a file (F01, F02, and F06's copy).               *)
(* The tree is a set of nodes [p (components), d (directory), m (mode), c (content)]; every event carries the    *)
(* tree as it is afterwards.  Events:                                                                            *)
(*   new    recording k is asked for under a name (file: components, ext: ends in .webm): ok, path               *)
(*   race   n recordings asked for at the same time under names for one file: oks granted (the k-th kept)        *)
(*   write  a keyframe reaches recording k;   close  recording k is closed                                       *)
(*   place, rm   somebody else puts a node there, or takes one away                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
RECURSIVE Norm(_, _)
Norm(s, c) == IF c = <<>> THEN s
              ELSE LET x == Head(c) IN
                   IF x = "" \/ x = "." THEN Norm(s, Tail(c))
                   ELSE IF x = ".." THEN Norm(IF s = <<>> THEN s ELSE SubSeq(s, 1, Len(s) - 1), Tail(c))
                   ELSE Norm(Append(s, x), Tail(c))
Under(dir, p) == Len(p) > Len(dir) /\ SubSeq(p, 1, Len(dir)) = dir
SetOf(s) == { s[i] : i \in DOMAIN s }
At(tree, p) == \E n \in tree : n.p = p
Node(tree, p) == CHOOSE n \in tree : n.p = p
IsDir(tree, p) == \E n \in tree : n.p = p /\ n.d

\* cfg: dir (components), fmode, dmode, umask (numbers), devnull, ivf, tree (before anything happened)
InitSt(cfg) == [ cfg |-> cfg, tree |-> SetOf(cfg.tree),
                 act |-> [ k \in {} |-> 0 ],  \* active recordings: path, ivf, wrote (created its file), tried (media arrived)
                 own |-> {},                  \* nodes that active recordings have created
                 names |-> {} ]               \* files ever asked for successfully
Target(st, file) == Norm(st.cfg.dir, file)
Valid(st, e) == e.ext /\ (st.cfg.devnull \/ Under(st.cfg.dir, Target(st, e.file)))
Actives(st) == { st.act[k].path : k \in DOMAIN st.act }
Prefixes(p) == { SubSeq(p, 1, i) : i \in 1 .. Len(p) - 1 }
Anc(st, p) == { q \in Prefixes(p) : Under(st.cfg.dir, q) }

\* n less the bits of the mask (nine permission bits)
RECURSIVE BitsLess(_, _, _)
BitsLess(n, mask, b) == IF b = 512 THEN 0
                        ELSE (IF (n \div b) % 2 = 1 /\ (mask \div b) % 2 = 0 THEN b ELSE 0) + BitsLess(n, mask, 2 * b)
Mode(st, n) == BitsLess(n, st.cfg.umask, 1)

New(st, tree) == { n \in tree : ~At(st.tree, n.p) }
Gone(st, tree) == { n \in st.tree : ~At(tree, n.p) }
Changed(st, tree) == { n \in st.tree : At(tree, n.p) /\ Node(tree, n.p) # n /\ ~n.d /\ n.p \notin st.own }
Remoded(st, tree) == { n \in st.tree : At(tree, n.p) /\ Node(tree, n.p).m # n.m }

\* what nothing may do to the tree
Harm(st, tree) == (IF Changed(st, tree) # {} \/ Gone(st, tree) # {} THEN {"F02.bytes"} ELSE {})
                  \cup (IF Remoded(st, tree) # {} THEN {"F01.mode"} ELSE {})

NewViol(st, e, oks) ==
  LET t == Target(st, e.file)
      tree == SetOf(e.tree)
      blocked == \E q \in Anc(st, t) : (At(st.tree, q) /\ ~IsDir(st.tree, q)) \/ q \in Actives(st)
      exists == At(st.tree, t) \/ t \in Actives(st)
      ivfThere == st.cfg.ivf /\ (At(st.tree, e.ivf) \/ \E k \in DOMAIN st.act : st.act[k].path = e.ivf)
  IN Harm(st, tree)
     \cup (IF \E n \in New(st, tree) : ~n.d \/ st.cfg.devnull \/ ~Valid(st, e) \/ n.p \notin Anc(st, t) THEN {"F01.stray"} ELSE {})
     \cup (IF \E n \in New(st, tree) : n.d /\ n.m # Mode(st, st.cfg.dmode) THEN {"F01.mode"} ELSE {})
     \cup (IF oks > 0
           THEN (IF ~Valid(st, e) THEN {"F01.refuse"} ELSE {})
                \cup (IF ~st.cfg.devnull /\ exists THEN {"F02.overwrite"} ELSE {})
                \cup (IF ~st.cfg.devnull /\ (\E q \in Anc(st, t) : q \in Actives(st)) THEN {"F02.spoil"} ELSE {})
                \cup (IF oks > 1 /\ ~st.cfg.devnull THEN {"F02.overwrite"} ELSE {})
                \cup (IF e.path # (IF st.cfg.devnull THEN << "/", "dev", "null" >> ELSE t) THEN {"F01.path"} ELSE {})
                \cup (IF ~st.cfg.devnull /\ ~blocked /\ ~IsDir(tree, SubSeq(t, 1, Len(t) - 1)) THEN {"F01.dirs"} ELSE {})
           ELSE IF ~Valid(st, e) \/ ~IsDir(st.tree, st.cfg.dir) THEN {}
           ELSE IF st.cfg.devnull THEN {"F01.deny"}
           ELSE IF exists \/ blocked \/ ivfThere THEN {}
           ELSE IF t \in st.names THEN {"F02.free"} ELSE {"F01.deny"})

WriteViol(st, e) ==
  LET tree == SetOf(e.tree)
      a == st.act[e.k]
      parent == SubSeq(a.path, 1, Len(a.path) - 1)
      may == IF st.cfg.devnull \/ a.wrote THEN {} ELSE { a.path } \cup (IF st.cfg.ivf THEN { a.ivf } ELSE {})
  IN Harm(st, tree)
     \cup (IF \E n \in New(st, tree) : n.p \notin may \/ n.d THEN {"F01.stray"} ELSE {})
     \cup (IF \E n \in New(st, tree) : n.p \in may /\ n.m # Mode(st, st.cfg.fmode) THEN {"F01.mode"} ELSE {})
     \cup (IF ~st.cfg.devnull /\ ~a.tried /\ ~At(st.tree, a.path) /\ IsDir(st.tree, parent) /\ ~At(tree, a.path) THEN {"F01.written"} ELSE {})
     \cup (IF ~st.cfg.devnull /\ st.cfg.ivf /\ ~a.tried /\ ~At(st.tree, a.path) /\ At(tree, a.path)
            /\ (IF a.taken THEN At(st.tree, a.ivf) ELSE ~At(st.tree, a.ivf) /\ ~At(tree, a.ivf)) THEN {"F06.missing"} ELSE {})
     \cup (IF At(tree, a.path) /\ \E n \in New(st, tree) : n.p = a.ivf /\ BitsLess(n.m, Node(tree, a.path).m, 1) # 0 THEN {"F06.mode"} ELSE {})

CloseViol(st, e) ==
  LET tree == SetOf(e.tree) IN
  Harm(st, tree) \cup (IF New(st, tree) # {} THEN {"F01.stray"} ELSE {})

Viol(st, ev) ==
  CASE ev.op = "crash" -> {"crash"}
    [] ev.op = "new" -> NewViol(st, ev, IF ev.ok THEN 1 ELSE 0)
    [] ev.op = "race" -> NewViol(st, ev, ev.oks)
    [] ev.op = "write" -> WriteViol(st, ev)
    [] ev.op = "close" -> CloseViol(st, ev)
    [] OTHER -> {}

Put(f, k, v) == [ x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x] ]
Grant(st, ev) == LET t == IF st.cfg.devnull THEN << "/", "dev", "null", ev.file >> ELSE Target(st, ev.file) IN
  [ st EXCEPT !.act = Put(@, ev.k, [ path |-> t, ivf |-> ev.ivf, wrote |-> FALSE, tried |-> FALSE, taken |-> At(st.tree, ev.ivf) ]), !.names = @ \cup {t} ]
Step0(st, ev) ==
  CASE ev.op = "new" -> IF ev.ok THEN Grant(st, ev) ELSE st
    [] ev.op = "race" -> IF ev.oks > 0 THEN Grant(st, ev) ELSE st
    [] ev.op = "write" ->
         LET a == st.act[ev.k]
             made == { n.p : n \in New(st, SetOf(ev.tree)) }
         IN [ st EXCEPT !.act[ev.k].wrote = @ \/ a.path \in made, !.act[ev.k].tried = TRUE, !.own = @ \cup (made \cap {a.path, a.ivf}) ]
    [] ev.op = "close" -> [ st EXCEPT !.act = [ k \in DOMAIN @ \ {ev.k} |-> @[k] ],
                                      !.own = @ \ {st.act[ev.k].path, st.act[ev.k].ivf} ]
    [] OTHER -> st
Step(st, ev) == IF ev.op = "crash" THEN st
                ELSE LET s == Step0(st, ev)
                         tree == SetOf(ev.tree)
                         \* what somebody took away and put back is no longer the recording's
                         lost == IF ev.op \in {"rm", "place"} THEN { p \in s.own : ~At(tree, p) } ELSE {}
                     IN [ s EXCEPT !.tree = tree, !.own = @ \ lost ]
=============================================================================
