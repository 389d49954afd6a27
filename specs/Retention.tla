----------------------------- MODULE Retention ------------------------------
(* Which checkpoints are kept on disk, and from which one training resumes.         *)
(* Scores: smaller is better; Nan stands for not-a-number (never good).             *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
Nan == 99999
Missing == -1
Range(s) == {s[i] : i \in DOMAIN s}
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
EmptyF == [x \in {} |-> 0]
\* sc: function epoch -> (function key -> score)
Keys(sc, E) == UNION {DOMAIN sc[e] : e \in E \cap DOMAIN sc}
Raw(sc, k, e) == IF e \in DOMAIN sc /\ k \in DOMAIN sc[e] THEN sc[e][k] ELSE Missing
Proper(sc, k, E) == {Raw(sc, k, e) : e \in E} \ {Missing}
Val(sc, k, E, e) == IF Raw(sc, k, e) = Missing THEN MaxS(Proper(sc, k, E)) ELSE Raw(sc, k, e)
\* a score which is the same for all stored epochs says nothing
Considered(sc, E) == {k \in Keys(sc, E) : Cardinality(Proper(sc, k, E)) >= 2}
LastNOf(E, n) == {e \in E : Cardinality({x \in E : x > e}) < n}
Justified(sc, E, cfg, e) == e \in LastNOf(E, cfg.last) \/ e \in Range(cfg.keep)
     \/ \E k \in Considered(sc, E) : Cardinality({x \in E : Val(sc, k, E, x) < Val(sc, k, E, e)}) < cfg.best
CleanupBad(sc, E, cfg, K, dry) ==
  LET D == E \ K
      nothing == dry \/ cfg.last >= Cardinality(E) \/ cfg.best >= Cardinality(E)
  IN If(~(K \subseteq E), "DRIVER-models")
     \cup If(nothing /\ D # {}, "deleted-although-too-few")
     \cup If(D \cap LastNOf(E, cfg.last) # {}, "recent-model-deleted")
     \cup If(cfg.haskeep /\ D \cap Range(cfg.keep) # {}, "explicitly-kept-model-deleted")
     \cup If(\E d \in D : \E k \in Considered(sc, E) : Cardinality({e \in K : Val(sc, k, E, e) <= Val(sc, k, E, d)}) < cfg.best, "best-model-deleted")
     \cup If(cfg.haskeep /\ ~nothing /\ \E e \in K : ~Justified(sc, E, cfg, e), "useless-model-kept")
\* over the whole history: the best model ever is still there (only when every epoch
\* was scored: next to unscored models a single score counts as "the same for all")
BestEverBad(sc, E, cfg) ==
  If(\E k \in Keys(sc, DOMAIN sc) : \E d \in DOMAIN sc \ E : k \in DOMAIN sc[d] /\ sc[d][k] # Nan
        /\ (\A x \in DOMAIN sc : k \in DOMAIN sc[x])
        /\ \A x \in DOMAIN sc \ {d} : sc[d][k] < sc[x][k]
        /\ cfg.best >= 1, "best-model-ever-lost")
--------------------------------------------------------------------------------
MInit(cfg) == [models |-> {}, sc |-> EmptyF, uns |-> FALSE]
ScoresOf(e) == [k \in {x[1] : x \in Range(e.sc)} |-> (CHOOSE x \in Range(e.sc) : x[1] = k)[2]]
\* resume point: the last epoch with everything needed
StartOf(e) == LET full == {f[1] : f \in {x \in Range(e.files) : x[2] /\ (e.train => x[3]) /\ x[1] <= e.final}} IN IF full = {} THEN 0 ELSE MaxS(full)
StartBad(e) ==
  LET auto == StartOf(e)
      exp == CASE e.start = 0 -> IF ~e.train /\ e.load > 0 THEN e.load ELSE auto
               [] e.start = 1 -> 0
               [] OTHER -> IF auto = 0 THEN 0 ELSE e.start - 1
  IN If(e.r # exp, "wrong-resume-epoch") \cup If(e.r # 0 /\ e.fnep # e.r, "wrong-model-file") \cup If(e.train /\ e.startep # exp + 1, "wrong-start-epoch")
MBad(st, cfg, e) ==
  CASE e.op = "save" -> {}
    [] e.op = "cleanup" -> CleanupBad(st.sc, st.models, cfg, Range(e.left), e.dry)
         \cup If(\E x \in Range(e.opt) : x \notin Range(e.left), "optimizer-state-of-deleted-model-left")
         \cup If(\E x \in Range(e.left) : x \notin Range(e.opt), "optimizer-state-of-kept-model-deleted")
         \cup If(e.raised, "cleanup-failed")
         \cup (IF st.uns THEN {} ELSE BestEverBad(st.sc, Range(e.left), cfg))
    [] e.op = "start" -> StartBad(e)
    [] OTHER -> {"DRIVER-op"}
MUpd(st, cfg, e) ==
  CASE e.op = "save" -> [models |-> st.models \cup {e.e}, uns |-> st.uns \/ e.noscore, sc |-> IF e.noscore THEN st.sc ELSE [x \in DOMAIN st.sc \cup {e.e} |-> IF x = e.e THEN ScoresOf(e) ELSE st.sc[x]]]
    [] e.op = "cleanup" -> [st EXCEPT !.models = Range(e.left)]
    [] OTHER -> st
=============================================================================
