---------------------------- MODULE LearnRateMC -----------------------------
(* Training loop with restarts: the schedule does not depend on where the training  *)
(* was interrupted (`ref` is the run without interruptions), with growth 0 it never *)
(* rises, and never falls below the minimum.                                        *)
EXTENDS LearnRate
CONSTANTS NEp, Scores, Kinds
VARIABLES cfg, st, ref, e, pc, sc
vars == <<cfg, st, ref, e, pc, sc>>
Cfgs == [kind : Kinds, def : {0}, min : {-2, -100}, decay : {-1}, growth : {0, 1}, presets : {<<>>, <<<<1, 1>>>>, <<<<2, -1>>>>},
         keys : {<<>>}, rellr : BOOLEAN, mine : {0, 2}, divold : BOOLEAN, thr : {-10}, gthr : {-10, -300}, nume : {2}, upd : {2}]
Init == /\ cfg \in Cfgs /\ st = [data |-> Presets(EmptyF, cfg.presets), file |-> {EmptyF}] /\ ref = Presets(EmptyF, cfg.presets) /\ e = 1 /\ pc = "get" /\ sc = EmptyF
Get == /\ pc = "get" /\ e <= NEp /\ st' = LUpd(st, cfg, [op |-> "get", e |-> e]) /\ ref' = WithLr(cfg, ref, e) /\ pc' = "train" /\ UNCHANGED <<cfg, e, sc>>
\* scores are a property of the (deterministic) training: the same again after a restart
Score(v) == /\ pc = "train" /\ (e \in DOMAIN sc => sc[e] = v) /\ sc' = Upd(sc, e, v)
            /\ st' = [st EXCEPT !.data[e].err = Upd(@, "dev_score", v)] /\ ref' = [ref EXCEPT ![e].err = Upd(@, "dev_score", v)]
            /\ pc' = "save" /\ UNCHANGED <<cfg, e>>
Save == /\ pc = "save" /\ st' = [st EXCEPT !.file = {st.data}] /\ pc' = "get" /\ e' = e + 1 /\ UNCHANGED <<cfg, ref, sc>>
\* killed: memory lost; the epoch is repeated
Kill == /\ pc \in {"train", "save"} /\ st' = [st EXCEPT !.data = CHOOSE d \in Loaded(st, cfg.presets) : TRUE] /\ pc' = "get" /\ UNCHANGED <<cfg, ref, e, sc>>
Next == Get \/ (\E v \in Scores : Score(v)) \/ Save \/ Kill
Spec == Init /\ [][Next]_vars
LrSame == \A x \in DOMAIN st.data : x \in DOMAIN ref => st.data[x].lr = ref[x].lr
NotBelowMin == \A x \in DOMAIN st.data : st.data[x].lr >= cfg.min \/ \E i \in DOMAIN cfg.presets : cfg.presets[i][2] < cfg.min
NoRise == (cfg.growth = 0 /\ cfg.presets = <<>>) => \A x, y \in DOMAIN st.data : x < y => st.data[x].lr >= st.data[y].lr
=============================================================================
