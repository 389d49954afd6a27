------------------------------ MODULE TrainLoop ------------------------------
(* The training loop as arithmetic on integers (parameters in units of 1/cfg.unit):   *)
(* gradients of the batches since the last update are summed, then one plain SGD      *)
(* update with the learning rate effective in that step is done; nothing else ever    *)
(* changes a parameter; reported scores are the sums over all batches of an epoch.    *)
(* The losses are linear: d loss_l / d param_j of a frame = x_j, for the loss of j.   *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
Range(s) == {s[i] : i \in DOMAIN s}
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(f, S \ {x})
\* cfg.seqs[ds][s]: [n |-> frames, x |-> <<sum of x_j over frames>>, f |-> custom norm factor]
BatchX(cfg, ds, seqs, j) == Sum([i \in DOMAIN seqs |-> cfg.seqs[ds][seqs[i]].x[j]], DOMAIN seqs)
BatchN(cfg, ds, seqs, l) == Sum([i \in DOMAIN seqs |-> IF cfg.losses[l].cnorm THEN cfg.seqs[ds][seqs[i]].f ELSE cfg.seqs[ds][seqs[i]].n], DOMAIN seqs)
\* gradient of parameter j, in units
Grad(cfg, seqs, j) ==
  LET l == cfg.params[j].loss
      L == cfg.losses[l]
      s == BatchX(cfg, 1, seqs, j) * L.scale * cfg.unit
  IN IF L.err \/ cfg.params[j].frozen THEN 0 ELSE IF L.norm THEN s \div BatchN(cfg, 1, seqs, l) ELSE s
GradExact(cfg, seqs, j) == LET l == cfg.params[j].loss IN cfg.losses[l].norm => (BatchX(cfg, 1, seqs, j) * cfg.losses[l].scale * cfg.unit) % BatchN(cfg, 1, seqs, l) = 0
Clip(g, c) == IF c = 0 THEN g ELSE IF g > c THEN c ELSE IF g < -c THEN -c ELSE g
\* learning rate (times cfg.lrden) in a global step; tables are indexed by step+1 / epoch
LrAt(cfg, ep, step) == cfg.lr[ep] * cfg.dynlr[((step + ep) % Len(cfg.dynlr)) + 1] * cfg.mult
AccumAt(cfg, ep, step) == cfg.accum[((step + ep) % Len(cfg.accum)) + 1]
Decay(cfg, j, w) == IF cfg.params[j].wd THEN w \div cfg.wdinv ELSE 0
DecayExact(cfg, j, w) == cfg.params[j].wd => w % cfg.wdinv = 0
Upd(cfg, ep, step, w, g) == [j \in DOMAIN w |-> IF cfg.params[j].frozen THEN w[j] ELSE w[j] - ((Clip(g[j], cfg.clip * cfg.unit) + Decay(cfg, j, w[j])) * LrAt(cfg, ep, step)) \div cfg.lrden]
NP(cfg) == DOMAIN cfg.params
Zero(cfg) == [j \in NP(cfg) |-> 0]
\* value of loss l summed over a batch, in units
LossSum(cfg, ds, seqs, w, l) == Sum([j \in {i \in NP(cfg) : cfg.params[i].loss = l} |-> BatchX(cfg, ds, seqs, j) * w[j]], {i \in NP(cfg) : cfg.params[i].loss = l})
--------------------------------------------------------------------------------
\* w: parameters; g: accumulated gradients; c: batches since the last update; ep, step: of the next batch
\* seen: sequences of this epoch; num/den: running score per loss
NL(cfg) == DOMAIN cfg.losses
Zl(cfg) == [l \in NL(cfg) |-> 0]
LInit(cfg) == [w |-> cfg.w0, g |-> Zero(cfg), c |-> 0, ep |-> 1, step |-> 0, seen |-> <<>>, num |-> Zl(cfg), den |-> Zl(cfg), dseen |-> <<>>, dnum |-> Zl(cfg), dden |-> Zl(cfg), evald |-> 0]
Perm(s, n) == Len(s) = n /\ Range(s) = 1..n
\* sc[l]: recorded score times the norm factor of all sequences, in units
ScoreBad(cfg, sc, num, den, l) == sc[l] # num[l]
\* an event of a new epoch closes the previous one
Close(st, cfg, e) == IF e.ep = st.ep THEN st ELSE [st EXCEPT !.ep = e.ep, !.g = Zero(cfg), !.c = 0, !.seen = <<>>, !.num = Zl(cfg), !.den = Zl(cfg), !.dseen = <<>>, !.dnum = Zl(cfg), !.dden = Zl(cfg)]
LBad(st, cfg, e) ==
  CASE e.op = "step" ->
         LET s == Close(st, cfg, e) IN
         If(e.w # st.w, "parameters-differ")
         \cup If(e.step # st.step, "wrong-step-number")
         \cup If(e.ep # st.ep /\ (e.ep # st.ep + 1 \/ ~Perm(st.seen, Len(cfg.seqs[1]))), "epoch-incomplete")
         \cup If(Range(e.seqs) \cap Range(s.seen) # {}, "sequence-trained-twice")
         \cup If(Len(s.dseen) > 0, "step-after-eval")
         \cup If(\E j \in NP(cfg) : ~GradExact(cfg, e.seqs, j) \/ ~DecayExact(cfg, j, s.w[j]), "DRIVER-inexact")
         \cup If(\E l \in NL(cfg) : e.loss[l] # LossSum(cfg, 1, e.seqs, s.w, l), "loss-value-differs")
    [] e.op = "eval" ->
         If(e.w # st.w, "parameters-differ") \cup If(e.train, "evaluated-in-train-mode")
         \cup If(e.ep # st.ep \/ ~Perm(st.seen, Len(cfg.seqs[1])), "eval-before-epoch-complete")
         \cup If(Range(e.seqs) \cap Range(st.dseen) # {}, "sequence-evaluated-twice")
    [] e.op = "scores" ->   \* as recorded for the epoch, after it is complete
         If(e.ep # st.ep, "DRIVER-scores") \cup If(~Perm(st.seen, Len(cfg.seqs[1])), "epoch-incomplete") \cup If(~Perm(st.dseen, Len(cfg.seqs[2])), "eval-incomplete")
         \cup If(e.lr # cfg.lr[e.ep] * cfg.lrshow, "recorded-learning-rate-differs")
         \cup If(\E l \in NL(cfg) : ScoreBad(cfg, e.train, st.num, st.den, l), "train-score-differs")
         \cup If(\E l \in NL(cfg) : ScoreBad(cfg, e.dev, st.dnum, st.dden, l), "dev-score-differs")
    [] e.op = "end" -> If(e.w # st.w, "final-parameters-differ") \cup If(e.step # st.step, "final-step-differs") \cup If(st.ep # cfg.nep, "stopped-early")
    [] OTHER -> {"DRIVER-op"}
LUpd(st0, cfg, e) ==
  CASE e.op = "step" ->
         LET st == Close(st0, cfg, e)
             g == [j \in NP(cfg) |-> st.g[j] + Grad(cfg, e.seqs, j)]
             upd == st.c + 1 >= AccumAt(cfg, e.ep, e.step)
         IN [st EXCEPT !.w = IF upd THEN Upd(cfg, e.ep, e.step, st.w, g) ELSE @, !.g = IF upd THEN Zero(cfg) ELSE g,
                       !.c = IF upd THEN 0 ELSE @ + 1, !.step = @ + 1, !.seen = @ \o e.seqs,
                       !.num = [l \in NL(cfg) |-> @[l] + LossSum(cfg, 1, e.seqs, st.w, l)], !.den = [l \in NL(cfg) |-> @[l] + BatchN(cfg, 1, e.seqs, l)]]
    [] e.op = "eval" -> [st0 EXCEPT !.dseen = @ \o e.seqs, !.dnum = [l \in NL(cfg) |-> @[l] + LossSum(cfg, 2, e.seqs, st0.w, l)], !.dden = [l \in NL(cfg) |-> @[l] + BatchN(cfg, 2, e.seqs, l)]]
    [] OTHER -> st0
=============================================================================
