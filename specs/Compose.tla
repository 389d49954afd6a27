------------------------------ MODULE Compose -------------------------------
(***************************************************************************)
(* What the composed datasets deliver, in terms of their parts.            *)
(* A frame is <<dataset, sequence, time>>.  The end-of-sequence label is   *)
(* <<-1, 0, 0>>.                                                           *)
(* cfg.kind     concat, combined, meta, concatseqs, multi, variable        *)
(* cfg.nk       number of data keys of the composed dataset                *)
(* cfg.len[k][d][s+1]   number of frames under the part's key k            *)
(* cfg.eos[k]   sequences under key k end with the label                   *)
(* cfg.src[d][k]  the key of part d that composed key k takes (0: none)    *)
(* cfg.inner[e][d]  the sequences of part d in its epoch e, in order       *)
(* cfg.law      order law, cfg.P, cfg.R (repeat), cfg.m, cfg.size[d], ...  *)
(* Event: epoch(e, items); item = [tag: sequence numbers, d: the part (by  *)
(* its tag) or 0, v: for each key its frames]                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
RECURSIVE Times(_, _)
Times(s, r) == IF r = 0 THEN <<>> ELSE s \o Times(s, r - 1)
Count(x, s) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) : Count(x, a) = Count(x, b)
Eos == <<-1, 0, 0>>
Frames(cfg, d, s, k) ==
  IF k = 0 THEN <<>>
  ELSE [t \in 1 .. cfg.len[k][d][s + 1] |-> <<d, s, t - 1>>] \o (IF cfg.eos[k] THEN <<Eos>> ELSE <<>>)
\* ------------------------------------------------------------- one item
\* a part inside of a concatenation (not its last one)
Repeated(f, n) == [i \in 1 .. n |-> f[Len(f)]]
InBetween(cfg, k, d, s) ==
  LET f == Frames(cfg, d, s, k)
      a == IF cfg.rmpost[k] THEN SubSeq(f, 1, Len(f) - 1) ELSE f
      m == cfg.multiple[k]
      b == IF m > 0 /\ Len(a) % m # 0 THEN a \o Repeated(a, m - (Len(a) % m)) ELSE a
      n == cfg.padto[k].f * Len(Frames(cfg, d, s, cfg.padto[k].k))
      c == IF cfg.padto[k].k = 0 THEN b ELSE IF Len(b) >= n THEN SubSeq(b, 1, n) ELSE b \o Repeated(b, n - Len(b))
  IN c
ItemOk(cfg, it) ==
  CASE cfg.kind = "concatseqs" ->
         \A k \in 1 .. cfg.nk : it.v[k] = Flat([j \in DOMAIN it.tag |-> IF j < Len(it.tag) THEN InBetween(cfg, k, 1, it.tag[j]) ELSE Frames(cfg, 1, it.tag[j], k)])
    [] cfg.kind = "meta" -> \* it.tag[1] is a corpus index; key k comes from part cfg.from[k].d
         Len(it.tag) = 1 /\ it.tag[1] + 1 \in DOMAIN cfg.map[1]
         /\ \A k \in 1 .. cfg.nk : LET d == cfg.from[k].d IN it.v[k] = Frames(cfg, d, cfg.map[d][it.tag[1] + 1], cfg.from[k].k)
    [] OTHER -> Len(it.tag) = 1 /\ it.d \in DOMAIN cfg.src /\ \A k \in 1 .. cfg.nk : it.v[k] = Frames(cfg, it.d, it.tag[1], cfg.src[it.d][k])
\* ------------------------------------------------------------ order laws
Pairs(items) == [i \in DOMAIN items |-> <<items[i].d, items[i].tag[1]>>]
OfPart(ids, d) == [i \in DOMAIN ids |-> <<d, ids[i]>>]
AllParts(cfg, e) == Flat([d \in DOMAIN cfg.inner[e] |-> OfPart(cfg.inner[e][d], d)])
Only(ps, d) == SelectSeq(ps, LAMBDA p : p[1] = d)
Tags(items) == [i \in DOMAIN items |-> items[i].tag]
FullEpochDone(cfg, e) == e % cfg.P = 0
Joined(cfg, seen, e, items) == Flat([j \in 1 .. cfg.P |-> IF j = cfg.P THEN items ELSE seen[e - cfg.P + j]])
Sample(cfg, e, d) == LET o == cfg.inner[e][d] IN [j \in 1 .. cfg.size[d] |-> <<d, o[(((e - 1) * cfg.size[d] + j - 1) % Len(o)) + 1]>>]
\* epoch-wise filter: the shortest ones are kept, in their order, about as many as the mean length allows
RECURSIVE SumOf(_, _)
SumOf(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumOf(f, S \ {x})
ListLen(cfg, i) == LET t == cfg.list[i] IN SumOf([j \in DOMAIN t |-> cfg.len[1][1][t[j] + 1]], DOMAIN t)
RECURSIVE Sel(_, _, _)
Sel(cfg, S, i) == IF i > Len(cfg.list) THEN <<>> ELSE (IF i \in S THEN <<cfg.list[i]>> ELSE <<>>) \o Sel(cfg, S, i + 1)
KeptOk(cfg, S, mx) ==
  LET n == [i \in DOMAIN cfg.list |-> ListLen(cfg, i)]
      rest == DOMAIN cfg.list \ S
      longest == CHOOSE i \in S : \A j \in S : n[j] <= n[i]
      next == CHOOSE i \in rest : \A j \in rest : n[j] >= n[i]
  IN /\ \A i \in S, j \in rest : n[i] <= n[j]
     /\ Cardinality(S) > 1 => SumOf(n, S \ {longest}) * 100 <= mx * (Cardinality(S) - 1)
     /\ rest # {} => SumOf(n, S \cup {next}) * 100 >= mx * (Cardinality(S) + 1)
Filtered(cfg, e, tags) ==
  IF e < cfg.filt.from \/ (cfg.filt.to > 0 /\ e > cfg.filt.to) THEN tags = cfg.list
  ELSE \E S \in SUBSET DOMAIN cfg.list : S # {} /\ tags = Sel(cfg, S, 1) /\ KeptOk(cfg, S, cfg.filt.max)
OrderOk(cfg, seen, e, items) ==
  CASE cfg.law = "concat" -> Pairs(items) = AllParts(cfg, e)
    [] cfg.law = "multi" -> Pairs(items) = Flat([j \in 1 .. cfg.m |-> OfPart(cfg.inner[(e - 1) * cfg.m + j][1], 1)])
    [] cfg.law = "variable" -> Pairs(items) = OfPart(cfg.inner[e][cfg.which[e]], cfg.which[e])
    [] cfg.law = "interleave" -> \* any interleaving of the parts, each in its own order, over the full epoch
         FullEpochDone(cfg, e) => \A d \in DOMAIN cfg.inner[e] : Only(Pairs(Joined(cfg, seen, e, items)), d) = OfPart(cfg.inner[e][d], d)
    [] cfg.law = "bag" -> FullEpochDone(cfg, e) => SameBag(Pairs(Joined(cfg, seen, e, items)), Times(AllParts(cfg, e), cfg.R))
    [] cfg.law = "sample" -> SameBag(Pairs(items), Flat([d \in DOMAIN cfg.inner[e] |-> Sample(cfg, e, d)]))
    [] cfg.law = "taglists" -> FullEpochDone(cfg, e) => SameBag(Tags(Joined(cfg, seen, e, items)), cfg.list)
    [] cfg.law = "corpus" -> FullEpochDone(cfg, e) => SameBag(Tags(Joined(cfg, seen, e, items)), [i \in 1 .. cfg.n |-> <<i - 1>>])
    [] cfg.law = "filtered" -> Filtered(cfg, e, Tags(items))
    [] cfg.law = "given" -> Tags(items) = [i \in DOMAIN cfg.given[e] |-> <<cfg.given[e][i]>>]
SizesEven(cfg, seen, e, items) ==
  LET lens == [j \in 1 .. cfg.P |-> IF j = cfg.P THEN Len(items) ELSE Len(seen[e - cfg.P + j])]
  IN \A i, j \in 1 .. cfg.P : lens[i] - lens[j] <= 1
CInit(cfg) == [seen |-> <<>>]
CBad(st, cfg, e) ==
  CASE e.op = "exc" -> {"exception"}
    [] e.op = "epoch" ->
         If(e.e # Len(st.seen) + 1, "DRIVER-epoch")
         \cup If(\E i \in DOMAIN e.items : ~ItemOk(cfg, e.items[i]), "data-not-from-the-parts-of-this-sequence")
         \cup If(e.e = Len(st.seen) + 1 /\ ~OrderOk(cfg, st.seen, e.e, e.items), "sequences-or-order-not-as-composed")
         \cup If(e.e = Len(st.seen) + 1 /\ cfg.law \in {"interleave", "bag", "taglists", "corpus"} /\ FullEpochDone(cfg, e.e) /\ ~SizesEven(cfg, st.seen, e.e, e.items), "uneven-sub-epochs")
         \cup If(e.nseqs >= 0 /\ e.nseqs # Len(e.items), "num_seqs-wrong")
    [] OTHER -> {"DRIVER-unknown-op"}
CUpd(st, cfg, e) == IF e.op = "epoch" THEN [st EXCEPT !.seen = Append(@, e.items)] ELSE st
=============================================================================
