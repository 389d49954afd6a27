------------------------------ MODULE Batching ------------------------------
(***************************************************************************)
(* From an ordered stream of sequences to mini-batches.                    *)
(* cfg.seqs[i]  = [id, lens: <<len of key 1, key 2, ..>>]   (stream order) *)
(* cfg.mode     "slices"  greedy in-order batching, one slice per item     *)
(*              "frames"  frames concatenated in one slice (non-recurrent) *)
(*              "bucket"  bucket batching                                  *)
(* cfg.chunk    [kind: "none"|"legacy"|"torch", size, step, min: per key   *)
(*               (size 0: key not chunked)]                                *)
(* cfg.minl, cfg.maxl  length filter per key, cfg.filter "chunk"|"seq"     *)
(* cfg.bs[i], cfg.ms[i]  frame limits per key / seq limit, which hold when *)
(*              (a chunk of) sequence i is added                           *)
(* cfg.pad      limit of padding frames per key                            *)
(* cfg.ctx      <<left, right>> context frames, on key 1                   *)
(* cfg.anyorder batches may come in any order (shuffling), same content    *)
(* Event "batch": items = sequence of [p: position in cfg.seqs (from 1),   *)
(*   w: per key <<start, end>>], T: padded length per key, n: slices       *)
(* An item (sequence or chunk) is a record of the same form.               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

If(c, n) == IF c THEN {n} ELSE {}
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Keys(cfg) == 1 .. cfg.nk
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))

(* ---- chunking ---- *)
FullItem(cfg, p) == [p |-> p, w |-> [k \in Keys(cfg) |-> <<0, cfg.seqs[p].lens[k]>>]]
CDefault(cfg) == CHOOSE k \in Keys(cfg) : cfg.chunk.size[k] > 0 /\ \A j \in 1 .. k - 1 : cfg.chunk.size[j] = 0
\* number of chunks of a sequence, each family of chunker with its own documented treatment of short remainders:
\* "legacy" starts a chunk iff it is the first one or more than `min` frames remain (for every key);
\* "torch" keeps a chunk iff it has at least `min` frames
\* legacy: a stream of at most one frame, which does not go along with the default stream, is not cut: every chunk has all of it
FullKey(cfg, p, k) ==
  LET d == CDefault(cfg) IN
  /\ cfg.chunk.kind = "legacy" /\ cfg.seqs[p].lens[k] <= 1
  /\ ~(cfg.chunk.step[k] = cfg.chunk.step[d] /\ cfg.seqs[p].lens[k] = cfg.seqs[p].lens[d])
ChunkWin(cfg, p, k, j) ==
  IF cfg.chunk.size[k] = 0 \/ FullKey(cfg, p, k) THEN <<0, cfg.seqs[p].lens[k]>>
  ELSE <<j * cfg.chunk.step[k], Min2(j * cfg.chunk.step[k] + cfg.chunk.size[k], cfg.seqs[p].lens[k])>>
ChunkOk(cfg, p, j) ==
  LET L(k) == cfg.seqs[p].lens[k]
      CK == {k \in Keys(cfg) : cfg.chunk.size[k] > 0 /\ ~FullKey(cfg, p, k)}
  IN IF cfg.chunk.kind = "legacy"
     THEN /\ L(CDefault(cfg)) > j * cfg.chunk.step[CDefault(cfg)]
          /\ (j = 0 \/ \A k \in CK : L(k) - j * cfg.chunk.step[k] > cfg.chunk.min[k])
     ELSE /\ \A k \in CK : L(k) > j * cfg.chunk.step[k]
          /\ \A k \in CK : ChunkWin(cfg, p, k, j)[2] - ChunkWin(cfg, p, k, j)[1] >= cfg.chunk.min[k]
RECURSIVE Chunks(_, _, _)
Chunks(cfg, p, j) ==
  IF ~ \E k \in Keys(cfg) : cfg.chunk.size[k] > 0 /\ cfg.seqs[p].lens[k] > j * cfg.chunk.step[k] THEN <<>>
  ELSE IF ChunkOk(cfg, p, j)
       THEN <<[p |-> p, w |-> [k \in Keys(cfg) |-> ChunkWin(cfg, p, k, j)]]>> \o Chunks(cfg, p, j + 1)
       ELSE IF cfg.chunk.kind = "legacy" THEN <<>> ELSE Chunks(cfg, p, j + 1)
CtxItem(cfg, it) == [it EXCEPT !.w[1] = <<@[1] - cfg.ctx[1], @[2] + cfg.ctx[2]>>]
ILen(it, k) == it.w[k][2] - it.w[k][1]
LenOk(cfg, it) == \A k \in Keys(cfg) : ILen(it, k) >= cfg.minl[k] /\ ILen(it, k) <= cfg.maxl[k]
ItemsOf(cfg, p) ==
  LET raw == IF cfg.chunk.kind = "none" THEN <<FullItem(cfg, p)>> ELSE Chunks(cfg, p, 0)
      c == [i \in DOMAIN raw |-> CtxItem(cfg, raw[i])]
  IN IF cfg.filter = "seq" THEN (IF LenOk(cfg, FullItem(cfg, p)) THEN c ELSE <<>>)
     ELSE SelectSeq(c, LAMBDA it : LenOk(cfg, it))
RECURSIVE ItemsFrom(_, _)
ItemsFrom(cfg, p) == IF p > Len(cfg.seqs) THEN <<>> ELSE ItemsOf(cfg, p) \o ItemsFrom(cfg, p + 1)
\* at most cfg.mtot sequences (those which are not filtered out count)
Items(cfg) ==
  LET its == ItemsFrom(cfg, 1) IN
  IF ~("mtot" \in DOMAIN cfg) THEN its ELSE
  SelectSeq(its, LAMBDA it : Cardinality({its[i].p : i \in {j \in DOMAIN its : its[j].p <= it.p}}) <= cfg.mtot)

(* ---- limits of a batch: b is the sequence of its items ---- *)
MaxLen(b, k) == MaxOf({ILen(b[i], k) : i \in DOMAIN b})
Padded(b, k) == MaxLen(b, k) * Len(b)
Fits(cfg, b) ==
  LET p == b[Len(b)].p
  IN /\ Len(b) <= cfg.ms[p]
     /\ \A k \in Keys(cfg) : Padded(b, k) <= cfg.bs[p][k]
     /\ \A k \in Keys(cfg) : Padded(b, k) - SumSeq([i \in DOMAIN b |-> ILen(b[i], k)]) <= cfg.pad[k]

(* ---- observed events ---- *)
BInit(cfg) == [items |-> Items(cfg), pos |-> 0, prev |-> <<>>, left |-> {}, foff |-> 0, part |-> <<>>]

BatchItems(e) == [i \in DOMAIN e.items |-> [p |-> e.items[i].p, w |-> e.items[i].w]]

ShapeBad(cfg, b, e) ==
  If(e.n # Len(b), "number-of-slices")
  \cup If(\E k \in Keys(cfg) : e.T[k] # MaxLen(b, k), "padded-length-wrong")

InOrderBad(st, cfg, e) ==
  LET b == BatchItems(e)
      n == Len(b)
  IN If(n = 0, "empty-batch")
     \cup (IF n = 0 THEN {} ELSE
       If(st.pos + n > Len(st.items) \/ \E i \in 1 .. n : st.pos + i <= Len(st.items) /\ st.items[st.pos + i] # b[i], "not-the-next-items-of-the-stream")
       \cup If(\E m \in 2 .. n : ~Fits(cfg, SubSeq(b, 1, m)), "batch-exceeds-limit")
       \cup If(st.prev # <<>> /\ Fits(cfg, Append(st.prev, b[1])), "batch-closed-although-next-item-fits")
       \cup ShapeBad(cfg, b, e))

\* shuffled: the set of batches is what in-order batching gives; every batch once
RECURSIVE Greedy(_, _, _, _)
Greedy(cfg, its, i, cur) ==
  IF i > Len(its) THEN (IF cur = <<>> THEN {} ELSE {cur})
  ELSE IF cur # <<>> /\ ~Fits(cfg, Append(cur, its[i])) THEN {cur} \cup Greedy(cfg, its, i + 1, <<its[i]>>)
  ELSE Greedy(cfg, its, i + 1, Append(cur, its[i]))
ShufBad(st, cfg, e) ==
  LET b == BatchItems(e)
  IN If(~ (b \in Greedy(cfg, st.items, 1, <<>>)), "not-a-batch-of-the-stream")
     \cup If(b \in st.left, "batch-twice")
     \cup (IF b = <<>> THEN {} ELSE ShapeBad(cfg, b, e))

\* bucket batching: cfg.buckets[i] = <<limit, maxn>> ascending; cfg.bestfit: no random bucket
Best(cfg, l) == CHOOSE i \in DOMAIN cfg.buckets : l <= cfg.buckets[i][1] /\ \A j \in 1 .. i - 1 : l > cfg.buckets[j][1]
BLen(cfg, it) == ILen(it, cfg.lkey)
BucketFits(cfg, b, i) == Len(b) <= cfg.buckets[i][2] /\ \A x \in DOMAIN b : BLen(cfg, b[x]) <= cfg.buckets[i][1]
Dropped(cfg, it) == BLen(cfg, it) > cfg.buckets[Len(cfg.buckets)][1]
BucketBad(st, cfg, e) ==
  LET b == BatchItems(e)
  IN If(b = <<>>, "empty-batch")
     \cup If(\E i \in DOMAIN b : ~ \E j \in DOMAIN st.items : st.items[j] = b[i], "unknown-item")
     \cup If(\E i \in DOMAIN b : b[i] \in st.left \/ \E j \in 1 .. i - 1 : b[j] = b[i], "item-twice")
     \cup If(\E i \in DOMAIN b : Dropped(cfg, b[i]), "too-long-item-not-dropped")
     \cup (IF b = <<>> \/ \E i \in DOMAIN b : Dropped(cfg, b[i]) THEN {} ELSE
        If(~ \E i \in DOMAIN cfg.buckets : BucketFits(cfg, b, i), "batch-exceeds-every-bucket")
        \cup If(\E i \in 1 .. Len(b) - 1 : b[i].p > b[i + 1].p, "order-within-bucket")
        \cup If(cfg.bestfit /\ \E i \in DOMAIN b : Best(cfg, BLen(cfg, b[i])) # Best(cfg, BLen(cfg, b[1])), "not-best-fitting-bucket")
        \cup If(cfg.bestfit /\ Len(b) > cfg.buckets[Best(cfg, BLen(cfg, b[1]))][2], "batch-exceeds-limit")
        \* once leftovers are flushed (a batch not filling its bucket), only leftovers of other buckets may follow
        \cup If(cfg.bestfit /\ st.foff > 0 /\ Best(cfg, BLen(cfg, b[1])) <= st.foff, "incomplete-batch-before-the-end")
        \cup ShapeBad(cfg, b, e))

\* frames mode: the frames of the items, in order, without gap; a batch closes at the frame limit or the seq limit
SeqsOf(b) == {b[i].p : i \in DOMAIN b}
FrBad(st, cfg, e) ==
  LET b == BatchItems(e)
      \* position in the concatenated stream: st.pos items complete, and st.foff frames (of key 1) of the next
      RECURSIVE Chk(_, _, _)
      Chk(i, pos, off) ==
        IF i > Len(b) THEN TRUE
        ELSE /\ pos < Len(st.items)
             /\ LET it == st.items[pos + 1] IN
                /\ b[i].p = it.p
                /\ b[i].w[1][1] = it.w[1][1] + off
                /\ b[i].w[1][2] <= it.w[1][2] /\ b[i].w[1][2] > b[i].w[1][1]
                /\ IF b[i].w[1][2] = it.w[1][2] THEN Chk(i + 1, pos + 1, 0)
                   ELSE Chk(i + 1, pos, b[i].w[1][2] - it.w[1][1])
      tot == SumSeq([i \in DOMAIN b |-> ILen(b[i], 1)])
  IN If(b = <<>>, "empty-batch")
     \cup If(~Chk(1, st.pos, st.foff), "not-the-next-frames-of-the-stream")
     \cup If(b # <<>> /\ tot > cfg.bs[1][1], "batch-exceeds-limit")
     \cup If(b # <<>> /\ Cardinality(SeqsOf(b)) > cfg.ms[1], "batch-exceeds-seq-limit")
     \cup If(e.T[1] # tot \/ e.n # 1, "padded-length-wrong")
     \cup If(\E i \in DOMAIN b : e.items[i].off # SumSeq([j \in 1 .. i - 1 |-> ILen(b[j], 1)]), "frame-offset-wrong")
     \cup If(st.prev # <<>> /\ SumSeq([i \in DOMAIN st.prev |-> ILen(st.prev[i], 1)]) < cfg.bs[1][1]
              /\ Cardinality(SeqsOf(st.prev)) < cfg.ms[1], "batch-closed-although-next-item-fits")

\* BatchSetGenerator protocol: peek(n) = indices of batches, advance(n), more, reset
GenBad(st, cfg, e) ==
  CASE e.op = "peek" ->
         LET avail == Min2(e.n, cfg.total - st.pos) IN
         If(Len(e.r) # avail, "peek-wrong-number")
         \cup If(\E i \in 1 .. Min2(Len(e.r), avail) : ~cfg.shuffle /\ e.r[i] # st.pos + i, "peek-not-the-next-batches")
         \cup If(cfg.shuffle /\ (\E i \in DOMAIN e.r : e.r[i] \in st.left \/ \E j \in 1 .. i - 1 : e.r[i] = e.r[j]), "batch-twice")
         \cup If(\E i \in 1 .. Min2(Len(st.part), Len(e.r)) : st.part[i] # e.r[i], "peek-changed-without-advance")
    [] e.op = "advance" ->
         If(st.pos + e.n > cfg.total \/ e.n > Len(st.part), "DRIVER-advance")
    [] e.op = "more" -> If(e.r # (st.pos < cfg.total), "has_more-wrong")
    [] e.op = "idx" -> If(e.r # st.pos, "current-batch-index-wrong")
    [] e.op = "cfrac" -> If(e.r < 0 \/ e.r > 1000000, "completed_frac-out-of-range") \cup If(e.r < st.foff, "completed_frac-decreases")
    [] e.op = "reset" -> {}
GenUpd(st, cfg, e) ==
  CASE e.op = "peek" -> [st EXCEPT !.part = IF Len(e.r) > Len(@) THEN e.r ELSE @]
    [] e.op = "advance" -> [st EXCEPT !.pos = @ + e.n, !.left = @ \cup {st.part[i] : i \in 1 .. e.n}, !.part = SubSeq(@, e.n + 1, Len(@))]
    [] e.op = "cfrac" -> [st EXCEPT !.foff = e.r]
    [] e.op = "reset" -> [st EXCEPT !.pos = 0, !.part = <<>>, !.left = {}, !.foff = 0]
    [] OTHER -> st

\* metadata of a collated batch: sequence tags, epoch, number of seqs, completed fraction (in millionths)
MetaBad(st, cfg, e) ==
  IF ~cfg.meta \/ ~("tags" \in DOMAIN e) THEN {} ELSE
  If(e.tags # [i \in DOMAIN e.items |-> cfg.seqs[e.items[i].p].id], "tag-of-wrong-seq")
  \cup If(e.epoch # cfg.epoch, "epoch-wrong")
  \cup If(e.frac # -1 /\ (e.frac < 0 \/ e.frac > 1000000), "complete_frac-out-of-range")
  \cup If(e.frac # -1 /\ e.frac < st.foff /\ cfg.mode # "bucket", "complete_frac-decreases")

BBad(st, cfg, e) ==
  CASE e.op = "batch" ->
       (CASE cfg.mode = "frames" -> FrBad(st, cfg, e)
          [] cfg.mode = "bucket" -> BucketBad(st, cfg, e)
          [] cfg.anyorder -> ShufBad(st, cfg, e)
          [] OTHER -> InOrderBad(st, cfg, e)) \cup MetaBad(st, cfg, e)
    [] e.op = "passend" -> {}
    [] OTHER -> GenBad(st, cfg, e)

FrPos(st, cfg, e) ==
  LET b == BatchItems(e)
      RECURSIVE Go(_, _, _)
      Go(i, pos, off) ==
        IF i > Len(b) THEN <<pos, off>>
        ELSE LET it == st.items[pos + 1] IN
             IF b[i].w[1][2] = it.w[1][2] THEN Go(i + 1, pos + 1, 0) ELSE Go(i + 1, pos, b[i].w[1][2] - it.w[1][1])
  IN Go(1, st.pos, st.foff)
BUpd(st, cfg, e) ==
  IF e.op # "batch" THEN GenUpd(st, cfg, e) ELSE
  LET b == BatchItems(e) IN
  CASE cfg.mode = "frames" -> LET po == FrPos(st, cfg, e) IN [st EXCEPT !.pos = po[1], !.foff = po[2], !.prev = b]
    [] cfg.mode = "bucket" ->
         LET bi == IF cfg.bestfit THEN Best(cfg, BLen(cfg, b[1])) ELSE 0 IN
         [st EXCEPT !.left = @ \cup {b[i] : i \in DOMAIN b},
                    !.foff = IF cfg.bestfit /\ (Len(b) < cfg.buckets[bi][2] \/ @ > 0) THEN bi ELSE @]
    [] cfg.anyorder -> [st EXCEPT !.left = @ \cup {b}, !.foff = IF "frac" \in DOMAIN e /\ e.frac > @ THEN e.frac ELSE @]
    [] OTHER -> [st EXCEPT !.pos = @ + Len(b), !.prev = b, !.foff = IF "frac" \in DOMAIN e /\ e.frac > @ THEN e.frac ELSE @]

BEnd(st, cfg) ==
  CASE cfg.mode = "gen" -> {}
    [] cfg.mode = "bucket" ->
         If({st.items[i] : i \in {j \in DOMAIN st.items : ~Dropped(cfg, st.items[j])}} # st.left, "items-lost")
    [] cfg.anyorder -> If(st.left # Greedy(cfg, st.items, 1, <<>>), "batches-lost")
    [] OTHER -> If(st.pos # Len(st.items), "items-lost")
=============================================================================
