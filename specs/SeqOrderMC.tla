---------------------------- MODULE SeqOrderMC ------------------------------
(***************************************************************************)
(* Reference implementation of partitioning and sharding, as a state       *)
(* machine: several instances of one dataset are asked for arbitrary       *)
(* (epoch, shard) parts in arbitrary order. Checked exhaustively: every    *)
(* answer of the reference machine satisfies every clause of SeqOrder, and *)
(* every completed full epoch covers the corpus exactly once.              *)
(* With EmitHist the explored request histories are printed; the           *)
(* conformance driver replays them into the real Dataset classes.          *)
(***************************************************************************)
EXTENDS SeqOrder, Json
CONSTANTS MaxN, MaxP, MaxS, MaxR, MaxLen, HistLen, EmitHist, Kinds
VARIABLES cfg, perms, st, hist
vars == <<cfg, perms, st, hist>>

Perms(n) == {f \in [1 .. n -> 0 .. n - 1] : \A i, j \in 1 .. n : i # j => f[i] # f[j]}

\* the reference cut of a full-epoch order o into P*S parts: larger parts first
RefPart(o, P, S, sub, sh) ==
  LET N == Len(o)
      k == sub * S + sh
      w == N \div (P * S)
      r == N % (P * S)
      lo == k * w + (IF k < r THEN k ELSE r)
      hi == lo + w + (IF k < r THEN 1 ELSE 0)
  IN SubSeq(o, lo + 1, hi)

RefUniq(c, o) == SelectSeq(o, LAMBDA i : \A j \in 1 .. Len(o) :
                     (o[j] # i /\ Tag(c, o[j]) = Tag(c, i)) =>
                        (CHOOSE a \in 1 .. Len(o) : o[a] = i) < j)

RECURSIVE Copies(_, _)
Copies(s, r) == IF r = 0 THEN <<>> ELSE s \o Copies(s, r - 1)

Ref(c, o, ep, sh) ==
  LET u == IF c.uniq THEN RefUniq(c, o) ELSE o
      p == Copies(RefPart(u, c.P, c.S, SubEp(c, ep), sh), c.R)
  IN IF c.filt.on THEN SelectSeq(p, LAMBDA i : Tag(c, i) \in Rng(c.filt.tags)) ELSE p

IsOrderFor(c, o) == SchemeBad(c, o) = {}

Init ==
  \E n \in 1 .. MaxN, P \in 1 .. MaxP, S \in 1 .. MaxS, R \in 1 .. MaxR, k \in Kinds, u \in BOOLEAN, fo \in BOOLEAN :
  \E lens \in [1 .. n -> 1 .. MaxLen], tags \in [1 .. n -> {1, 2}] :
    /\ (u \/ fo) => (MaxLen = 1 /\ R = 1 /\ ~(u /\ fo))
    /\ R > 1 => P = 1
    /\ (~u /\ ~fo) => \A i \in 1 .. n : tags[i] = 1
    /\ cfg = [n |-> n, lens |-> lens, tags |-> tags, P |-> P, S |-> S, R |-> R, uniq |-> u,
              filt |-> [on |-> fo, tags |-> <<1>>],
              m |-> [k |-> k, b |-> 2, nth |-> 1], fixed |-> FALSE, reshuf |-> FALSE]
    /\ perms \in [{0, 1} -> {o \in Perms(n) : ~Shuffling(cfg) => SchemeBad([cfg EXCEPT !.uniq = FALSE, !.filt.on = FALSE], o) = {}}]
    /\ Shuffling(cfg) => \A f \in {0, 1} : SchemeBad([cfg EXCEPT !.uniq = FALSE, !.filt.on = FALSE], perms[f]) = {}
    /\ st = SInit(cfg)
    /\ hist = <<>>

Event(ep, sh) ==
  LET s == Ref(cfg, perms[FullEp(cfg, ep)], ep, sh) IN [ep |-> ep, sh |-> sh, seq |-> s, empty |-> s = <<>>]

Ask(ep, sh) ==
  /\ Len(hist) < HistLen
  /\ st' = SUpd(st, cfg, Event(ep, sh))
  /\ hist' = Append(hist, <<ep, sh>>)
  /\ UNCHANGED <<cfg, perms>>

Next == \E ep \in 1 .. 2 * cfg.P, sh \in 0 .. cfg.S - 1 : Ask(ep, sh)
Spec == Init /\ [][Next]_vars

\* history is auxiliary
View == <<cfg, perms, st, Len(hist)>>

NoClauseViolated ==
  \A ep \in 1 .. 2 * cfg.P, sh \in 0 .. cfg.S - 1 : SchemeStepBad(st, cfg, Event(ep, sh)) = {}

\* prints every explored request history (used as a generator with hist in the state)
Emit == (EmitHist /\ Len(hist) = HistLen) =>
          PrintT(ToJson([k |-> "BEH", P |-> cfg.P, S |-> cfg.S, h |-> hist]))

ExactlyOnce ==
  \A f \in Fulls(st, cfg) :
    ~cfg.uniq => \A i \in Eligible(cfg) :
       Cardinality({q \in Requests(cfg, f) : i \in Rng(st.ans[q])}) = 1
=============================================================================
