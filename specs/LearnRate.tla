----------------------------- MODULE LearnRate ------------------------------
(* Learning rate control: the schedule as a function of configuration and the      *)
(* recorded scores, and its persistence. Learning rates are powers of two and are  *)
(* represented by their exponent; scores are integers.                             *)
(* data: function from epochs to [lr, err (function key -> value), meta]           *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
None == -9999
EmptyF == [x \in {} |-> 0]
Upd(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
RECURSIVE FoldPairs(_, _)
FoldPairs(f, ps) == IF ps = <<>> THEN f ELSE FoldPairs(Upd(f, Head(ps)[1], Head(ps)[2]), Tail(ps))
MaxS(S) == CHOOSE x \in S : \A y \in S : y <= x
MinS(S) == CHOOSE x \in S : \A y \in S : y >= x
Before(data, e) == {x \in DOMAIN data : x < e}
LastEp(data, e) == IF Before(data, e) = {} THEN 0 ELSE MaxS(Before(data, e))
RECURSIVE LastN(_, _, _)
LastN(data, e, n) == IF n = 0 \/ LastEp(data, e) = 0 THEN <<>> ELSE Append(LastN(data, LastEp(data, e), n - 1), LastEp(data, e))
--------------------------------------------------------------------------------
(* which score is decisive: the configured ones, else by this fixed preference     *)
Fixed == <<"dev_score", "dev_score_output", "dev_score_output/output", "dev_score_output/output_prob", "dev_score_output/x",
           "dev_error", "dev_error_ctc", "dev_loss", "dev_score_att", "dev_score_ctc", "train_score", "train_score_output",
           "aaa", "train_error", "train_score_att", "train_score_ctc", "zzz">>
RECURSIVE WithOutput(_)
WithOutput(ks) == IF ks = <<>> THEN <<>> ELSE <<Head(ks), Head(ks) \o "_output">> \o WithOutput(Tail(ks))
RECURSIVE FirstIn(_, _)
FirstIn(ks, S) == IF ks = <<>> THEN "" ELSE IF Head(ks) \in S THEN Head(ks) ELSE FirstIn(Tail(ks), S)
ErrKey(cfg, err) == FirstIn(WithOutput(cfg.keys) \o Fixed, DOMAIN err)
HasErr(data, e) == e \in DOMAIN data /\ DOMAIN data[e].err # {}
Key(cfg, data, e) == ErrKey(cfg, data[e].err)
Val(cfg, data, e) == data[e].err[Key(cfg, data, e)]
--------------------------------------------------------------------------------
RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
Abs(x) == IF x < 0 THEN -x ELSE x
Comparable(cfg, data, a, b) == HasErr(data, a) /\ HasErr(data, b) /\ Key(cfg, data, a) = Key(cfg, data, b)
\* relative change from epoch a to epoch b as a fraction <<num, den>>
Rel(cfg, data, a, b) ==
  LET o == Val(cfg, data, a)  n == Val(cfg, data, b)
      d0 == IF cfg.divold THEN Abs(o) ELSE Abs(n)
      d == IF d0 = 0 /\ n = o THEN 1 ELSE d0
      k == data[b].lr - cfg.def
  IN IF ~cfg.rellr THEN <<n - o, d>> ELSE IF k >= 0 THEN <<n - o, d * Pow2(k)>> ELSE <<(n - o) * Pow2(-k), d>>
Gt(fr, thr) == fr[1] * 1000 > thr * fr[2]
Lt(fr, thr) == fr[1] * 1000 < thr * fr[2]
Decay(cfg, lr) == IF lr + cfg.decay < cfg.min THEN cfg.min ELSE lr + cfg.decay
Grow(cfg, lr) == lr + cfg.growth
RECURSIVE SumRel(_, _, _, _)
SumRel(cfg, data, es, D) == IF Len(es) < 2 THEN 0
   ELSE LET r == Rel(cfg, data, es[1], es[2]) IN r[1] * (D \div r[2]) + SumRel(cfg, data, Tail(es), D)
Calc(cfg, data, e) ==
  LET l1 == LastEp(data, e)
      l2 == IF l1 = 0 THEN 0 ELSE LastEp(data, l1)
      recent == LastN(data, e, cfg.mine)
      lrs == {data[recent[i]].lr : i \in DOMAIN recent}
      last == IF l1 = 0 THEN cfg.def ELSE data[l1].lr
  IN IF cfg.mine > 1 /\ (Cardinality(lrs) >= 2 \/ (0 < Len(recent) /\ Len(recent) < cfg.mine)) THEN last
     ELSE CASE cfg.kind = "const" -> last
            [] cfg.kind = "rel" ->
                 IF l1 = 0 \/ l2 = 0 \/ ~Comparable(cfg, data, l2, l1) THEN last
                 ELSE IF Gt(Rel(cfg, data, l2, l1), cfg.thr) THEN Decay(cfg, last) ELSE Grow(cfg, last)
            [] cfg.kind = "abs" ->
                 IF l1 = 0 \/ l2 = 0 \/ ~Comparable(cfg, data, l2, l1) THEN last
                 ELSE IF Gt(<<Val(cfg, data, l1) - Val(cfg, data, l2), 1>>, cfg.thr) THEN Decay(cfg, last) ELSE Grow(cfg, last)
            [] cfg.kind = "multi" ->
                 LET es == LastN(data, e, cfg.nume + 1)
                     D == 512
                     ok == Len(es) >= 2 /\ \A i \in 1 .. (Len(es) - 1) : Comparable(cfg, data, es[i], es[i + 1])
                     mean == <<SumRel(cfg, data, es, D), D * (Len(es) - 1)>>
                 IN IF cfg.upd > 1 /\ e % cfg.upd # 1 THEN last
                    ELSE IF ~ok THEN last
                    ELSE IF Gt(mean, cfg.thr) THEN Decay(cfg, last)
                    ELSE IF Lt(mean, cfg.gthr) THEN Grow(cfg, last) ELSE last
--------------------------------------------------------------------------------
(* best epoch: minimal decisive score among the comparable ones, strictly better than the latest one *)
Best(cfg, data, a) ==
  LET first == IF a.lastn > 0 /\ a.last - a.lastn + 1 > a.first THEN a.last - a.lastn + 1 ELSE a.first
      cand0 == {e \in first .. a.last : HasErr(data, e)}
      lst == MaxS(cand0)
      cand1 == {e \in cand0 : Key(cfg, data, e) = Key(cfg, data, lst) /\ (a.filter = None \/ Val(cfg, data, e) <= a.filter)}
      cand2 == IF a.onlyn >= 1 THEN {e \in cand1 : Cardinality({x \in cand1 : x > e}) < a.onlyn} ELSE cand1
      cand3 == {e \in cand2 : Val(cfg, data, e) + a.dist < Val(cfg, data, lst)}
  IN IF cand0 = {} \/ cand3 = {} THEN 0
     ELSE LET m == MinS({Val(cfg, data, e) : e \in cand3}) IN MinS({e \in cand3 : Val(cfg, data, e) = m})
--------------------------------------------------------------------------------
NewEp(lr) == [lr |-> lr, err |-> EmptyF, meta |-> EmptyF]
RECURSIVE Presets(_, _)
Presets(data, ps) == IF ps = <<>> THEN data
   ELSE Presets(IF Head(ps)[1] \in DOMAIN data THEN data ELSE Upd(data, Head(ps)[1], NewEp(Head(ps)[2])), Tail(ps))
RECURSIVE Flat(_, _)
Flat(f, raw) == IF raw = <<>> THEN f
   ELSE LET r == Head(raw) IN Flat(IF Len(r.sub) = 1 THEN Upd(f, r.key, r.sub[1][2]) ELSE FoldPairs(f, [i \in DOMAIN r.sub |-> <<r.key \o "_" \o r.sub[i][1], r.sub[i][2]>>]), Tail(raw))
Dump(d) == {<<e, d[e].lr, {<<k, d[e].err[k]>> : k \in DOMAIN d[e].err}, {<<k, d[e].meta[k]>> : k \in DOMAIN d[e].meta}>> : e \in DOMAIN d}
Seen(ev) == {<<x.e, x.lr, {x.err[i] : i \in DOMAIN x.err}, {x.meta[i] : i \in DOMAIN x.meta}>> : x \in {ev.dump[i] : i \in DOMAIN ev.dump}}
\* state: data in memory; file: the possible contents of the file (crash during save: old or new)
LInit(cfg) == [data |-> EmptyF, file |-> {EmptyF}]
Loaded(st, ps) == {Presets(f, ps) : f \in st.file}
WithLr(cfg, data, e) == IF e \in DOMAIN data THEN data ELSE Upd(data, e, NewEp(Calc(cfg, data, e)))
LBad(st, cfg, e) ==
  CASE e.op = "new" -> If(\A d \in Loaded(st, e.presets) : Dump(d) # Seen(e), "restored-state-differs")
    [] e.op = "get" -> If(WithLr(cfg, st.data, e.e)[e.e].lr # e.lr, "wrong-learning-rate")
    [] e.op = "err" -> {}
    [] e.op = "meta" -> {}
    [] e.op = "save" -> {}
    [] e.op = "crash" -> {}
    [] e.op = "dump" -> If(Dump(st.data) # Seen(e), "epoch-data-wrong")
    [] e.op = "best" -> If(Best(cfg, st.data, e) # e.r, "wrong-best-epoch")
    [] e.op = "key" -> If(HasErr(st.data, e.e) /\ (e.key # Key(cfg, st.data, e.e) \/ e.v # Val(cfg, st.data, e.e)), "wrong-score-selected")
    [] OTHER -> {"DRIVER-op"}
LUpd(st, cfg, e) ==
  CASE e.op = "new" -> LET d == CHOOSE d \in Loaded(st, e.presets) : Dump(d) = Seen(e)
                       IN [data |-> d, file |-> {f \in st.file : Dump(Presets(f, e.presets)) = Seen(e)}]
    [] e.op = "get" -> [st EXCEPT !.data = WithLr(cfg, st.data, e.e)]
    [] e.op = "err" -> LET d == WithLr(cfg, st.data, e.e) IN [st EXCEPT !.data = [d EXCEPT ![e.e].err = Flat(@, e.raw)]]
    [] e.op = "meta" -> [st EXCEPT !.data[e.e].meta = Upd(@, e.k, e.v)]
    [] e.op = "save" -> [st EXCEPT !.file = {st.data}]
    [] e.op = "crash" -> [st EXCEPT !.file = @ \cup {st.data}]
    [] OTHER -> st
=============================================================================
