----------------------------- MODULE BatchingMC -----------------------------
(* Reference batcher as a state machine: items arrive one by one, the batcher     *)
(* either appends to the open batch or closes it first. TLC checks exhaustively   *)
(* for small streams that its output violates no clause of Batching, that every   *)
(* item is delivered exactly once and that no batch exceeds a limit.              *)
EXTENDS Batching
CONSTANTS MaxN, MaxL, BSizes, MSeqs, Pads, Big
ChunkCfgs == {<<"none",0,0,0>>,<<"legacy",2,1,0>>,<<"torch",2,2,0>>,<<"torch",3,1,2>>} \cup
  (IF Big THEN {<<"legacy",3,2,1>>, <<"torch",1,2,0>>} ELSE {})
VARIABLES cfg, items, i, cur, out, done
vars == <<cfg, items, i, cur, out, done>>

Lens == UNION {[1 .. n -> 1 .. MaxL] : n \in 0 .. MaxN}
Cfg(ls, bs, ms, pd, ch) ==
  [seqs |-> [x \in DOMAIN ls |-> [id |-> x, lens |-> <<ls[x]>>]], nk |-> 1, mode |-> "slices",
   chunk |-> [kind |-> ch[1], size |-> <<ch[2]>>, step |-> <<ch[3]>>, min |-> <<ch[4]>>],
   minl |-> <<0>>, maxl |-> <<1000>>, filter |-> "chunk", bs |-> [x \in DOMAIN ls |-> <<bs>>], ms |-> [x \in DOMAIN ls |-> ms],
   pad |-> <<pd>>, ctx |-> <<0, 0>>, anyorder |-> FALSE, meta |-> FALSE]
Init == /\ \E ls \in Lens, bs \in BSizes, ms \in MSeqs, pd \in Pads, ch \in ChunkCfgs : cfg = Cfg(ls, bs, ms, pd, ch)
        /\ items = Items(cfg) /\ i = 1 /\ cur = <<>> /\ out = <<>> /\ done = FALSE
Arrive ==
  /\ i <= Len(items) /\ i' = i + 1 /\ UNCHANGED <<cfg, items, done>>
  /\ IF cur # <<>> /\ ~Fits(cfg, Append(cur, items[i]))
     THEN out' = Append(out, cur) /\ cur' = <<items[i]>>
     ELSE cur' = Append(cur, items[i]) /\ UNCHANGED out
Flush == /\ i > Len(items) /\ ~done /\ done' = TRUE /\ cur' = <<>>
         /\ out' = IF cur = <<>> THEN out ELSE Append(out, cur)
         /\ UNCHANGED <<cfg, items, i>>
Next == Arrive \/ Flush
Spec == Init /\ [][Next]_vars

Ev(b) == [op |-> "batch", items |-> b, n |-> Len(b), T |-> <<MaxLen(b, 1)>>]
RECURSIVE Replay(_, _)
Replay(s, k) == IF k > Len(out) THEN s ELSE IF BBad(s, cfg, Ev(out[k])) # {} THEN [s EXCEPT !.pos = -1] ELSE Replay(BUpd(s, cfg, Ev(out[k])), k + 1)
NoClauseViolated == LET r == Replay(BInit(cfg), 1) IN r.pos >= 0 /\ (done => BEnd(r, cfg) = {})
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
ExactlyOnceInOrder == Flat(out) \o cur = SubSeq(items, 1, i - 1)
\* every frame is delivered when chunks leave no gap and no remainder is dropped
CoversAllFrames ==
  (done /\ cfg.chunk.step[1] <= cfg.chunk.size[1] /\ cfg.chunk.min[1] = 0) =>
    \A p \in DOMAIN cfg.seqs : \A t \in 0 .. cfg.seqs[p].lens[1] - 1 :
       \E b \in DOMAIN out : \E x \in DOMAIN out[b] : out[b][x].p = p /\ out[b][x].w[1][1] <= t /\ t < out[b][x].w[1][2]
\* without overlap every frame is delivered once
NoFrameTwice ==
  (cfg.chunk.kind = "none" \/ cfg.chunk.step[1] >= cfg.chunk.size[1]) =>
    \A a, b \in DOMAIN items : (a # b /\ items[a].p = items[b].p) =>
       (items[a].w[1][2] <= items[b].w[1][1] \/ items[b].w[1][2] <= items[a].w[1][1])
LimitsHold == \A b \in DOMAIN out : Len(out[b]) = 1 \/ Fits(cfg, out[b])
=============================================================================
