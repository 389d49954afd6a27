--------------------------- MODULE DatasetAccess ----------------------------
(***************************************************************************)
(* The sequence access protocol of a Dataset, as seen by its consumer.     *)
(*                                                                         *)
(* cfg.order[e]  the sequences of epoch e in order (numbers; the identity  *)
(*               of a sequence, not its position)                          *)
(* cfg.lens      lens[s+1] = number of frames of sequence s                *)
(* Operations (events):                                                    *)
(*   init(ep)  load(a,b)  less(n)=r  data(i)=v  tag(i)=v  len(i)=v         *)
(*   nseqs=v   frac(i)=v (millionths, -1: unknown)  finish                 *)
(*   collect(i)  (internal step of a streaming source: seq i is produced)  *)
(* Clauses named DRIVER-... are obligations of the consumer (legality of   *)
(* the history); all others are obligations of the dataset.                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

AInit(cfg) ==
  [ep |-> 0, lo |-> 0, la |-> 0, lb |-> 0, conf |-> 0, ended |-> FALSE, frac |-> [i |-> -1, v |-> 0], col |-> -1]

N(st, cfg) == IF st.ep = 0 THEN 0 ELSE Len(cfg.order[st.ep])
At(st, cfg, i) == cfg.order[st.ep][i + 1]
LenOf(cfg, s) == IF s + 1 \in 1 .. Len(cfg.lens) THEN cfg.lens[s + 1] ELSE -1
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
RECURSIVE SumLens(_, _)
SumLens(cfg, eps) == IF eps = <<>> THEN 0 ELSE Len(cfg.order[Head(eps)]) + SumLens(cfg, Tail(eps))
If(c, n) == IF c THEN {n} ELSE {}

ABad(st, cfg, e) ==
  CASE e.op = "exc" -> {"exception"}
    [] st.ep = 0 /\ e.op \notin {"init", "finish", "collect", "cover", "same", "union", "meta"} -> {"DRIVER-no-epoch"}
    [] e.op = "init" -> If(~(e.ep \in 1 .. Len(cfg.order)), "DRIVER-epoch")
         \cup If(\E i \in DOMAIN cfg.order[e.ep] : cfg.order[e.ep][i] + 1 \notin DOMAIN cfg.lens, "corrupt-data")
         \cup If(\E i, j \in DOMAIN cfg.order[e.ep] : i < j /\ cfg.order[e.ep][i] = cfg.order[e.ep][j], "duplicate-seq")
    [] e.op = "finish" -> {}
    [] e.op = "load" ->
         If(~(st.ep > 0 /\ st.lo <= e.a /\ e.a <= e.b /\ e.a < st.conf), "DRIVER-load")
         \cup If(~e.ok, "load-failed")
    [] e.op = "less" -> If(e.r # (e.n < N(st, cfg)), "is_less_than_num_seqs-wrong")
    [] e.op = "data" ->
         If(~(st.la <= e.i /\ e.i < st.lb), "DRIVER-data")
         \cup If(e.i < N(st, cfg) /\ e.v # At(st, cfg, e.i), "data-of-wrong-seq")
    [] e.op = "tag" ->
         If(~(st.lo <= e.i /\ e.i < st.conf), "DRIVER-tag")
         \cup If(e.i < N(st, cfg) /\ e.v # At(st, cfg, e.i), "tag-of-wrong-seq")
    [] e.op = "len" ->
         If(~(st.lo <= e.i /\ e.i < st.conf), "DRIVER-len")
         \cup If(e.i < N(st, cfg) /\ e.v # LenOf(cfg, At(st, cfg, e.i)), "wrong-seq-length")
    [] e.op = "nseqs" ->
         If(~(st.ended \/ cfg.known), "DRIVER-nseqs")
         \cup If(e.v # N(st, cfg), "num_seqs-wrong")
    [] e.op = "frac" ->
         If(~(st.la <= e.i /\ e.i < st.lb), "DRIVER-frac")
         \cup If(e.v # -1 /\ (e.v < 0 \/ e.v > 1000000), "complete_frac-out-of-range")
         \cup If(e.v # -1 /\ st.frac.i >= 0 /\ e.i >= st.frac.i /\ e.v < st.frac.v, "complete_frac-decreases")
         \cup If(e.v # -1 /\ cfg.exactfrac /\ e.i < N(st, cfg) /\ e.v # ((e.i + 1) * 1000000) \div N(st, cfg), "complete_frac-inexact")
         \cup If("fracslack" \in DOMAIN cfg /\ cfg.fracslack > 0 /\ e.v # -1 /\ e.i < N(st, cfg)
               /\ (e.v * N(st, cfg) > (e.i + 1 + cfg.fracslack) * 1000000 \/ e.v * N(st, cfg) < (e.i - cfg.fracslack) * 1000000), "complete_frac-of-another-position")
    [] e.op = "epoch" ->   \* data which depends on the epoch
         If(~(st.la <= e.i /\ e.i < st.lb), "DRIVER-data")
         \cup If(e.v # e.want, "data-of-another-epoch")
    [] e.op = "cover" ->   \* the epoch contains exactly these sequences (in some order)
         If({cfg.order[e.ep][i] : i \in DOMAIN cfg.order[e.ep]} # {e.seqs[i] : i \in DOMAIN e.seqs} \/ Len(cfg.order[e.ep]) # Len(e.seqs), "not-the-sequences-of-the-epoch")
    [] e.op = "same" ->    \* same order as the reference
         If(cfg.order[e.ep] # e.seqs, "not-the-order-of-the-wrapped-dataset")
    [] e.op = "union" ->   \* these sub-epochs together contain every sequence of the corpus exactly once
         If(UNION {{cfg.order[k][i] : i \in DOMAIN cfg.order[k]} : k \in {e.eps[j] : j \in DOMAIN e.eps}} # 0 .. e.n - 1
            \/ SumLens(cfg, e.eps) # e.n, "full-epoch-incomplete-or-repeated")
    [] e.op = "meta" -> If(~e.ok, "meta-information-differs")
    [] e.op = "collect" ->
         If(e.i < N(st, cfg) /\ e.i <= st.col, "seq-produced-twice-or-out-of-order")
    [] OTHER -> {"DRIVER-unknown-op"}

AUpd(st, cfg, e) ==
  CASE e.op = "init" -> [AInit(cfg) EXCEPT !.ep = e.ep]
    [] e.op = "finish" -> AInit(cfg)
    [] e.op = "load" -> [st EXCEPT !.lo = e.a, !.la = e.a, !.lb = Min2(e.b, N(st, cfg))]
    [] e.op = "less" -> IF e.r THEN [st EXCEPT !.conf = Max2(@, e.n + 1)] ELSE [st EXCEPT !.ended = TRUE]
    [] e.op = "frac" -> IF e.v = -1 THEN st ELSE [st EXCEPT !.frac = [i |-> e.i, v |-> e.v]]
    [] e.op = "collect" -> [st EXCEPT !.col = Max2(@, e.i)]
    [] OTHER -> st
=============================================================================
