---------------------------- MODULE DistribFiles ----------------------------
(***************************************************************************)
(* Distribution of files over the sub-epochs and shards of a full epoch,   *)
(* on top of the access protocol of DatasetAccess.                         *)
(* cfg: additionally nf (files), S (shards), P (partition_epoch), eq (all  *)
(* files have the same size), seqs[f + 1] (the sequences of file f),       *)
(* random (files are shuffled), sizes (of the files, or <<>>).  Events:    *)
(*   bin(full, shard, sub, files)   the files of a sub-epoch of a shard    *)
(*   epoch(k, files)   order[k] is what comes from these files             *)
(* Everything else: see DatasetAccess.                                     *)
(***************************************************************************)
EXTENDS DatasetAccess
DInit(cfg) == [a |-> AInit(cfg), bins |-> <<>>, full |-> 0]
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))
\* complete: the S * P bins of a full epoch, shard-major
RECURSIVE SizeOf(_, _)
SizeOf(cfg, fs) == IF fs = <<>> THEN 0 ELSE cfg.sizes[Head(fs) + 1] + SizeOf(cfg, Tail(fs))
BiggestFile(cfg) == CHOOSE x \in Range(cfg.sizes) : \A y \in Range(cfg.sizes) : y <= x
\* evenly by size, up to a few files (what a one-pass distribution in the given order can do)
Uneven(cfg, bins) ==
  LET n == Len(bins)  total == SizeOf(cfg, Concat(bins)) IN
  \E b \in DOMAIN bins : SizeOf(cfg, bins[b]) * n > total + 3 * BiggestFile(cfg) * n \/ SizeOf(cfg, bins[b]) * n < total - 2 * BiggestFile(cfg) * n
BinsBad(cfg, bins) ==
  LET all == Concat(bins) IN
  If(\E b \in DOMAIN bins : bins[b] = <<>>, "empty-sub-epoch")
  \cup If(Range(all) # 0 .. cfg.nf - 1, "file-missing-in-full-epoch")
  \cup If(Len(all) # cfg.nf /\ Range(all) = 0 .. cfg.nf - 1, "file-twice-in-full-epoch")
  \cup If(~cfg.random /\ Len(all) = cfg.nf /\ \E i \in DOMAIN all : all[i] # i - 1, "files-not-in-order")
  \cup If(cfg.sizes # <<>> /\ Range(all) \subseteq 0 .. cfg.nf - 1 /\ Uneven(cfg, bins), "not-evenly-distributed-by-size")
  \cup If(cfg.eq /\ cfg.nf % Len(bins) = 0 /\ \E b \in DOMAIN bins : Len(bins[b]) # cfg.nf \div Len(bins), "not-evenly-distributed")
DBad(st, cfg, e) ==
  CASE e.op = "bin" -> LET bins == Append(IF st.full = e.full THEN st.bins ELSE <<>>, e.files) IN
         IF Len(bins) = cfg.S * cfg.P THEN BinsBad(cfg, bins) ELSE {}
    [] e.op = "epoch" ->
         LET want == Concat([i \in DOMAIN e.files |-> cfg.seqs[e.files[i] + 1]])
             got == cfg.order[e.k]
         IN If(Range(got) # Range(want) \/ Len(got) # Len(want), "not-the-sequences-of-the-files")
            \cup If(~cfg.shuffled /\ Range(got) = Range(want) /\ got # want, "not-in-the-order-of-the-sub-dataset")
    [] OTHER -> ABad(st.a, cfg, e)
DUpd(st, cfg, e) ==
  CASE e.op = "bin" -> [st EXCEPT !.full = e.full, !.bins = Append(IF st.full = e.full THEN @ ELSE <<>>, e.files)]
    [] e.op = "epoch" -> st
    [] OTHER -> [st EXCEPT !.a = AUpd(@, cfg, e)]
=============================================================================
