------------------------------- MODULE Align -------------------------------
(***************************************************************************)
(* Alignments of label sequences to frames, and edit distances.            *)
(* An alignment of T frames is a string p \in (0..K-1)^T.  With the CTC     *)
(* topology it stands for the labels which remain after merging repetitions*)
(* and dropping blanks, with the RNA topology only blanks are dropped.     *)
(* Scores are products of frame weights (naturals), so all sums are exact. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Min2(x, y) == IF x < y THEN x ELSE y
RECURSIVE SumOver(_, _)
SumOver(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOver(f, S \ {x})
RECURSIVE Drop(_, _)
Drop(p, blank) == IF p = <<>> THEN <<>> ELSE (IF Head(p) = blank THEN <<>> ELSE <<Head(p)>>) \o Drop(Tail(p), blank)
RECURSIVE Merge(_)
Merge(p) == IF Len(p) < 2 THEN p ELSE IF p[1] = p[2] THEN Merge(Tail(p)) ELSE <<p[1]>> \o Merge(Tail(p))
Collapse(p, blank, loop) == Drop(IF loop THEN Merge(p) ELSE p, blank)
Strings(K, T) == IF T = 0 THEN {<<>>} ELSE [1 .. T -> 0 .. K - 1]
Aligns(lab, T, K, blank, loop) == {p \in Strings(K, T) : Collapse(p, blank, loop) = lab}
RECURSIVE ProdTo(_, _, _)
ProdTo(p, w, t) == IF t = 0 THEN 1 ELSE w[t][p[t] + 1] * ProdTo(p, w, t - 1)
Prod(p, w) == ProdTo(p, w, Len(p))
SumProd(A, w) == SumOver([p \in A |-> Prod(p, w)], A)
----------------------------------------------------------------------------
(* automata: edges <<from, to, label>>; number of paths which read p from s to the final state *)
RECURSIVE NumPaths(_, _, _, _)
NumPaths(E, s, fin, p) ==
  IF p = <<>> THEN (IF s = fin THEN 1 ELSE 0)
  ELSE LET out == {i \in DOMAIN E : E[i][1] = s /\ E[i][3] = Head(p)}
       IN SumOver([i \in out |-> NumPaths(E, E[i][2], fin, Tail(p))], out)
(* the automaton reads exactly the alignments of the labels, each in exactly one way *)
CtcFsaOk(E, s, fin, lab, T, K, blank, loop) ==
  \A p \in Strings(K, T) : NumPaths(E, s, fin, p) = (IF Collapse(p, blank, loop) = lab THEN 1 ELSE 0)
(* sum over all paths of length T - t, of an automaton with edge weights <<from, to, label, weight>> *)
RECURSIVE PathSum(_, _, _, _, _, _)
PathSum(E, s, fin, w, t, via) ==   \* via = <<t, label>>: only the paths through it; <<0, 0>>: all
  IF t > Len(w) THEN (IF s = fin THEN 1 ELSE 0)
  ELSE LET out == {i \in DOMAIN E : E[i][1] = s /\ (via[1] = t => E[i][3] = via[2])}
       IN SumOver([i \in out |-> E[i][4] * w[t][E[i][3] + 1] * PathSum(E, E[i][2], fin, w, t + 1, via)], out)
RECURSIVE PathMax(_, _, _, _, _, _)
PathMax(E, s, fin, w, t, p) ==     \* p = <<>>: any string
  IF t > Len(w) THEN (IF s = fin THEN 1 ELSE 0)
  ELSE LET out == {i \in DOMAIN E : E[i][1] = s /\ (p # <<>> => E[i][3] = p[t])}
       IN Max({0} \cup {E[i][4] * w[t][E[i][3] + 1] * PathMax(E, E[i][2], fin, w, t + 1, p) : i \in out})
----------------------------------------------------------------------------
(* edit distance, by the definition: last symbols matched / replaced, deleted, inserted *)
Front(s) == SubSeq(s, 1, Len(s) - 1)
RECURSIVE Lev(_, _)
Lev(a, b) == IF a = <<>> THEN Len(b) ELSE IF b = <<>> THEN Len(a)
             ELSE IF a[Len(a)] = b[Len(b)] THEN Lev(Front(a), Front(b))
             ELSE 1 + Min({Lev(Front(a), Front(b)), Lev(Front(a), b), Lev(a, Front(b))})
LevRow(a, b) == [j \in 1 .. Len(b) + 1 |-> Lev(a, SubSeq(b, 1, j - 1))]
(* the best distance which a can still reach by appending symbols *)
OcLev(a, b) == Min({LevRow(a, b)[j] : j \in 1 .. Len(b) + 1})
----------------------------------------------------------------------------
AInit(cfg) == [x |-> 0]
ABad(st, cfg, e) ==
  CASE e.op = "fsa" -> If(\E T \in 0 .. e.T : ~CtcFsaOk(e.edges, e.s, e.fin, e.lab, T, e.K, e.blank, e.loop), "fsa-language")
    [] e.op = "bw" ->
         LET A == Aligns(e.lab, Len(e.w), e.K, e.blank, e.loop)
             tot == SumProd(A, e.w)
         \* no alignment at all: by convention score 0 (in log space) and no soft alignment, so no error signal
         IN IF tot = 0 THEN If(\E t \in DOMAIN e.post : \E c \in DOMAIN e.post[t] : e.post[t][c] # 0, "soft-alignment")
            ELSE If(e.total # tot, "full-sum")
                 \cup If(\E t \in DOMAIN e.w, c \in 1 .. e.K :
                           LET At == {p \in A : p[t] = c - 1} IN e.post[t][c] # SumProd(At, e.w), "soft-alignment")
    [] e.op = "gbw" ->
         LET tot == PathSum(e.edges, e.s, e.fin, e.w, 1, <<0, 0>>)
         IN IF tot = 0 THEN If(\E t \in DOMAIN e.post : \E c \in DOMAIN e.post[t] : e.post[t][c] # 0, "soft-alignment")
            ELSE If(e.total # tot, "full-sum")
                 \cup If(\E t \in DOMAIN e.w, c \in 1 .. e.K : e.post[t][c] # PathSum(e.edges, e.s, e.fin, e.w, 1, <<t, c - 1>>), "soft-alignment")
    [] e.op = "vit" ->
         LET best == PathMax(e.edges, e.s, e.fin, e.w, 1, <<>>)
         IN If(e.best # best, "best-score") \cup If(best > 0 /\ PathMax(e.edges, e.s, e.fin, e.w, 1, e.align) # best, "not-a-best-path")
    [] e.op = "ctcvit" ->
         LET A == Aligns(e.lab, Len(e.w), e.K, e.blank, TRUE)
             best == Max({0} \cup {Prod(p, e.w) : p \in A})
         IN If(e.best # best, "best-score") \cup If(best > 0 /\ ~(e.align \in A /\ Prod(e.align, e.w) = best), "not-a-best-path")
    [] e.op = "ed" -> If(e.res # Lev(e.a, e.b), "edit-distance")
    [] e.op = "row" -> If(e.res # LevRow(e.a, e.b), "edit-distance-row")
    [] e.op = "oc" -> If(e.res # OcLev(e.a, e.b), "optimal-completion")
    [] e.op = "ocsucc" -> If(e.res # [i \in DOMAIN e.succ |-> OcLev(e.a \o <<e.succ[i]>>, e.b)], "optimal-completion-per-successor")
    [] e.op = "edsucc" -> If(e.res # [i \in DOMAIN e.succ |-> Lev(IF e.succ[i] = e.blank THEN e.a ELSE e.a \o <<e.succ[i]>>, e.b)], "edit-distance-per-successor")
    [] OTHER -> {e.op}
AUpd(st, cfg, e) == st
AEnd(st, cfg) == {}
=============================================================================
