------------------------------ MODULE SeqOrder ------------------------------
(***************************************************************************)
(* Epoch ordering, epoch partitioning and sharding of a dataset.           *)
(*                                                                         *)
(* A configuration cfg describes one corpus and how it is asked for:       *)
(*   n      number of sequences, named 0 .. n-1                            *)
(*   lens   lens[i+1] = length of sequence i                               *)
(*   tags   tags[i+1] = tag (a number) of sequence i (may collide)         *)
(*   P S R  partition_epoch, number of shards, repeat_epoch                *)
(*   uniq   unique_seq_tags                                                *)
(*   filt   [on, tags]  tag white list                                     *)
(*   m      ordering scheme [k |-> kind, b |-> bins, nth |-> n]            *)
(*   fixed  a fixed seed is used: every full epoch has the same order      *)
(*                                                                         *)
(* The abstract state is the set of already answered requests:             *)
(*   st.ans  : function from <<epoch, shard>> to the answered list         *)
(* A step answers one request (epoch, shard), asked of any instance, after *)
(* any history. Bad(st,cfg,e) names the clauses a claimed answer violates. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Rng(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(Rng(s)) = Len(s)
Tag(cfg, i) == cfg.tags[i + 1]
Ln(cfg, i) == cfg.lens[i + 1]

FullEp(cfg, ep) == (ep - 1) \div cfg.P
SubEp(cfg, ep) == (ep - 1) % cfg.P

\* the sequences the ordering scheme may use at all
Usable(cfg) ==
  IF cfg.m.k = "default_every_n" THEN 0 .. ((cfg.n \div cfg.m.b) * cfg.m.b - 1)
  ELSE 0 .. (cfg.n - 1)

Eligible(cfg) == {i \in Usable(cfg) : (~cfg.filt.on) \/ Tag(cfg, i) \in Rng(cfg.filt.tags)}

\* number of sequences in one full epoch before the filter
FullCount(cfg) ==
  IF cfg.uniq THEN Cardinality({Tag(cfg, i) : i \in Usable(cfg)}) ELSE Cardinality(Usable(cfg))

PartLo(cfg) == FullCount(cfg) \div (cfg.P * cfg.S)
PartHi(cfg) == IF FullCount(cfg) % (cfg.P * cfg.S) = 0 THEN PartLo(cfg) ELSE PartLo(cfg) + 1

\* one repetition of an answer
Base(cfg, s) == SubSeq(s, 1, Len(s) \div cfg.R)

IsRepeated(cfg, s) ==
  /\ Len(s) % cfg.R = 0
  /\ LET w == Len(s) \div cfg.R IN \A i \in 1 .. Len(s) : s[i] = s[((i - 1) % w) + 1]

-----------------------------------------------------------------------------
(* Exactly-once partitioning (C01) *)

SameFull(st, cfg, ep) == {q \in DOMAIN st.ans : FullEp(cfg, q[1]) = FullEp(cfg, ep)}

PartitionBad(st, cfg, e) ==
  LET s == e.seq
      q == <<e.ep, e.sh>>
      b == Base(cfg, s)
      others == SameFull(st, cfg, e.ep) \ {q}
  IN
    (IF Rng(s) \subseteq Eligible(cfg) THEN {} ELSE {"foreign-or-filtered-seq"})
    \cup (IF IsRepeated(cfg, s) THEN {} ELSE {"repeat_epoch-copies-differ"})
    \cup (IF NoDup(b) THEN {} ELSE {"seq-twice-in-one-part"})
    \cup (IF \A o \in others : Rng(b) \cap Rng(Base(cfg, st.ans[o])) = {} THEN {}
          ELSE {"seq-in-two-parts-of-one-full-epoch"})
    \cup (IF cfg.uniq /\ ~ (/\ Cardinality({Tag(cfg, i) : i \in Rng(b)}) = Len(b)
                            /\ \A o \in others : {Tag(cfg, i) : i \in Rng(b)} \cap
                                   {Tag(cfg, i) : i \in Rng(Base(cfg, st.ans[o]))} = {})
          THEN {"tag-twice-despite-unique_seq_tags"} ELSE {})
    \cup (IF (cfg.filt.on /\ Len(b) <= PartHi(cfg)) \/ Len(b) \in PartLo(cfg) .. PartHi(cfg) THEN {}
          ELSE {"unbalanced-part"})
    \cup (IF e.empty /\ ~(cfg.filt.on \/ PartLo(cfg) = 0) THEN {"spurious-empty-error"} ELSE {})

Requests(cfg, full) ==
  {<<full * cfg.P + k, s>> : k \in 1 .. cfg.P, s \in 0 .. (cfg.S - 1)}

Complete(st, cfg, full) == Requests(cfg, full) \subseteq DOMAIN st.ans

CoverageBad(st, cfg, full) ==
  LET all == UNION {Rng(st.ans[q]) : q \in Requests(cfg, full)} IN
    IF cfg.uniq
    THEN (IF {Tag(cfg, i) : i \in all} = {Tag(cfg, i) : i \in Eligible(cfg)} THEN {} ELSE {"seq-lost"})
    ELSE (IF all = Eligible(cfg) THEN {} ELSE {"seq-lost"})

-----------------------------------------------------------------------------
(* Scheme semantics (C02): predicates on the order of one full epoch, which *)
(* is the concatenation of its parts, sub-epoch by sub-epoch and, within a  *)
(* sub-epoch, shard by shard.                                               *)

RECURSIVE CatParts(_, _, _, _)
CatParts(st, cfg, full, k) ==   \* k-th part, counted from 0
  IF k = cfg.P * cfg.S THEN <<>>
  ELSE Base(cfg, st.ans[<<full * cfg.P + (k \div cfg.S) + 1, k % cfg.S>>]) \o CatParts(st, cfg, full, k + 1)

FullOrder(st, cfg, full) == CatParts(st, cfg, full, 0)

LenSeq(cfg, o) == [i \in 1 .. Len(o) |-> Ln(cfg, o[i])]
Ascending(x) == \A i \in 1 .. Len(x) - 1 : x[i] <= x[i + 1]
Descending(x) == \A i \in 1 .. Len(x) - 1 : x[i] >= x[i + 1]
Blk(n, bins, i) == [lo |-> (i * n) \div bins, hi |-> ((i + 1) * n) \div bins]  \* 0-based half-open

CountIn(x, v) == Cardinality({i \in DOMAIN x : x[i] = v})
SameBag(x, y) == Len(x) = Len(y) /\ \A v \in Rng(x) \cup Rng(y) : CountIn(x, v) = CountIn(y, v)

\* the ascending list of all lengths
SortedLens(cfg) == SortSeq(cfg.lens, LAMBDA a, b : a < b)

BinBlock(cfg, i) == LET k == Blk(cfg.n, cfg.m.b, i) IN SubSeq(SortedLens(cfg), k.lo + 1, k.hi)

\* can x be written as a concatenation of the blocks `bins' in some order?
RECURSIVE Decomposes(_, _, _, _)
Decomposes(cfg, x, bins, shuffled) ==
  IF bins = {} THEN x = <<>>
  ELSE \E i \in bins :
         LET b == BinBlock(cfg, i) IN
           /\ Len(b) <= Len(x)
           /\ IF shuffled THEN SameBag(SubSeq(x, 1, Len(b)), b) ELSE SubSeq(x, 1, Len(b)) = b
           /\ Decomposes(cfg, SubSeq(x, Len(b) + 1, Len(x)), bins \ {i}, shuffled)

MonotoneBy(cfg, o, desc) ==
  \A i \in 1 .. Len(o) - 1 :
    \/ (IF desc THEN Ln(cfg, o[i]) > Ln(cfg, o[i + 1]) ELSE Ln(cfg, o[i]) < Ln(cfg, o[i + 1]))
    \/ (Ln(cfg, o[i]) = Ln(cfg, o[i + 1]) /\ o[i] < o[i + 1])

SchemeBad(cfg, o) ==
  LET k == cfg.m.k
      whole == ~cfg.uniq /\ ~cfg.filt.on
      x == LenSeq(cfg, o)
      ok == CASE k = "default" -> \A i \in 1 .. Len(o) - 1 : o[i] < o[i + 1]
              [] k = "reverse" -> \A i \in 1 .. Len(o) - 1 : o[i] > o[i + 1]
              [] k = "default_every_n" ->
                   ~whole \/ \A i \in 1 .. Len(o) :
                      o[i] = ((i - 1) % cfg.m.b) * (cfg.n \div cfg.m.b) + ((i - 1) \div cfg.m.b)
              [] k = "sorted" -> MonotoneBy(cfg, o, FALSE)
              [] k = "sorted_reverse" -> MonotoneBy(cfg, o, TRUE)
              [] k = "random" -> TRUE
              [] k = "laplace" ->
                   ~whole \/ \A i \in 0 .. cfg.m.b - 1 :
                      LET q == Blk(cfg.n, cfg.m.b, i)
                          y == SubSeq(x, q.lo + 1, q.hi)
                      IN IF i % 2 = 0 THEN Ascending(y) ELSE Descending(y)
              [] k = "sort_bin_shuffle" -> ~whole \/ Decomposes(cfg, x, 0 .. cfg.m.b - 1, FALSE)
              [] k = "sort_bin_shuffle_x2" -> ~whole \/ Decomposes(cfg, x, 0 .. cfg.m.b - 1, TRUE)
              [] OTHER -> FALSE
  IN IF ok THEN {} ELSE {"order-violates-scheme-" \o k}

Shuffling(cfg) == cfg.m.k \in {"random", "laplace", "sort_bin_shuffle", "sort_bin_shuffle_x2"}

\* two full epochs share their order iff they are in the same group
SameGroup(cfg, f, g) == cfg.fixed \/ ~Shuffling(cfg) \/ (f \div cfg.m.nth) = (g \div cfg.m.nth)

EpochsBad(st, cfg, f, g) ==
  LET a == FullOrder(st, cfg, f)
      b == FullOrder(st, cfg, g)
  IN IF SameGroup(cfg, f, g)
     THEN (IF a = b THEN {} ELSE {"order-changes-where-it-must-stay"})
     ELSE (IF cfg.reshuf /\ a = b THEN {"not-reshuffled-in-new-epoch"} ELSE {})

DetermBad(st, cfg, e) ==
  LET q == <<e.ep, e.sh>> IN
    IF q \in DOMAIN st.ans /\ st.ans[q] # e.seq THEN {"answer-depends-on-history"} ELSE {}

-----------------------------------------------------------------------------
(* The state machine *)
SInit(cfg) == [ans |-> [q \in {} |-> <<>>]]

SUpd(st, cfg, e) ==
  [st EXCEPT !.ans = [q \in (DOMAIN @) \cup {<<e.ep, e.sh>>} |-> IF q = <<e.ep, e.sh>> THEN e.seq ELSE @[q]]]

SBad(st, cfg, e) ==
  LET nxt == SUpd(st, cfg, e)
      full == FullEp(cfg, e.ep)
  IN DetermBad(st, cfg, e) \cup PartitionBad(st, cfg, e)
     \cup (IF Complete(nxt, cfg, full) /\ PartitionBad(st, cfg, e) = {}
           THEN CoverageBad(nxt, cfg, full) ELSE {})

\* C02 additionally: the semantics of the scheme on every completed full epoch
Fulls(st, cfg) == {f \in {FullEp(cfg, q[1]) : q \in DOMAIN st.ans} : Complete(st, cfg, f)}

SchemeStepBad(st, cfg, e) ==
  LET base == SBad(st, cfg, e)
      nxt == SUpd(st, cfg, e)
      full == FullEp(cfg, e.ep)
  IN IF base # {} THEN base
     ELSE IF ~Complete(nxt, cfg, full) THEN {}
     ELSE SchemeBad(cfg, FullOrder(nxt, cfg, full))
          \cup UNION {EpochsBad(nxt, cfg, full, g) : g \in Fulls(st, cfg) \ {full}}
=============================================================================
