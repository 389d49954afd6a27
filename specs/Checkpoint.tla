----------------------------- MODULE Checkpoint -----------------------------
(* Training as a sequence of epochs and steps, with checkpoints, crashes and restarts. *)
(* The uninterrupted training is the reference (cfg.ref: one record per step); every   *)
(* training with crashes must go through the very same steps, each (re)start resuming  *)
(* from a complete checkpoint and never further back than the last finished save.      *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
Range(s) == {s[i] : i \in DOMAIN s}
Max0(S) == IF S = {} THEN 0 ELSE CHOOSE x \in S : \A y \in S : y <= x
Saveable(e, cfg, nep) == e % cfg.interval = 0 \/ e = nep
\* index of the first step of an epoch in the reference
First(cfg, ep) == LET I == {i \in DOMAIN cfg.ref : cfg.ref[i].ep = ep} IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
ContentBad(cfg, files) == If(\E f \in Range(files) : f.ok /\ f.h # cfg.ckpt[f.ep], "checkpoint-content-differs")
                          \cup If(\E f \in Range(files) : ~f.ok, "torn-checkpoint-visible")
Complete(e) == {f.ep : f \in {x \in Range(e.pt) : x.ok}} \cap {f.ep : f \in {x \in Range(e.opt) : x.ok}}
\* state: next position in the reference (0: not running), last finished save, epochs target, last epoch seen in this run
KInit(cfg) == [pos |-> 0, dur |-> 0, nep |-> 0, run |-> FALSE, cur |-> 0]
KBad(st, cfg, e) ==
  CASE e.op = "disk" -> If(st.run, "DRIVER-disk") \cup ContentBad(cfg, e.pt) \cup If(\E f \in Range(e.opt) : ~f.ok, "torn-optimizer-state-visible")
         \cup If(Max0(Complete(e)) < st.dur, "finished-epoch-lost")
    [] e.op = "begin" -> If(e.ep - 1 # st.pos, "not-resumed-from-last-checkpoint")
    [] e.op = "step" -> If(~(st.cur + 1 <= Len(cfg.ref)), "extra-step")
         \cup If(st.cur + 1 <= Len(cfg.ref) /\ e.ep # cfg.ref[st.cur + 1].ep, "wrong-epoch")
         \cup If(st.cur + 1 <= Len(cfg.ref) /\ e.step # cfg.ref[st.cur + 1].step, "wrong-step-number")
         \cup If(st.cur + 1 <= Len(cfg.ref) /\ e.h # cfg.ref[st.cur + 1].h, "training-diverges-from-uninterrupted")
         \cup If(e.ep > st.nep, "trained-beyond-final-epoch")
    [] e.op = "eval" -> If(e.h \notin Range(cfg.evals[e.ep]), "evaluation-differs")
    [] e.op = "crash" -> {}
    [] e.op = "fail" -> {"training-or-restart-failed"}
    [] e.op = "finish" -> If(st.cur # Len(cfg.ref) /\ (st.nep = cfg.nep \/ cfg.ref[st.cur + 1].ep # st.nep + 1), "stopped-early")
         \cup If(\E x \in Range(e.scores) : x \notin Range(cfg.scores), "recorded-score-or-rate-differs")
         \cup If(\E x \in Range(cfg.scores) : x.ep <= st.nep /\ x \notin Range(e.scores), "recorded-score-or-rate-missing")
         \cup If(~\E f \in Range(e.pt) : f.ep = st.nep /\ f.ok, "final-model-missing")
         \cup ContentBad(cfg, e.pt)
    [] OTHER -> {"DRIVER-op"}
\* saves which are certainly finished when a step of epoch ep is executed
DurAt(st, cfg, ep) == Max0({x \in 1..(ep - 1) : Saveable(x, cfg, st.nep)} \cup {st.dur})
KUpd(st, cfg, e) ==
  CASE e.op = "disk" -> [st EXCEPT !.pos = Max0({x \in Complete(e) : x <= e.nep}), !.nep = e.nep]
    [] e.op = "begin" -> [st EXCEPT !.run = TRUE, !.cur = IF First(cfg, e.ep) = 0 THEN Len(cfg.ref) ELSE First(cfg, e.ep) - 1]
    [] e.op = "step" -> [st EXCEPT !.cur = @ + 1, !.dur = DurAt(st, cfg, e.ep)]
    [] e.op = "crash" -> [st EXCEPT !.run = FALSE]
    [] e.op = "finish" -> [st EXCEPT !.run = FALSE, !.dur = st.nep]
    [] OTHER -> st
=============================================================================
