------------------------------ MODULE SeqModel ------------------------------
(***************************************************************************)
(* A model (module) maps a sequence to a sequence: its result is a function*)
(* of that sequence, whatever other sequences share the batch, whatever is *)
(* in the padding, and however the axes are ordered.  A causal model may   *)
(* also be evaluated on a prefix or step by step, carrying its state: the  *)
(* frames are the same.                                                    *)
(* Values are fixed point numbers (1/1000).                                *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
Abs(a) == IF a < 0 THEN -a ELSE a
CeilDiv(a, b) == (a + b - 1) \div b
CloseV(a, b) == Abs(a - b) <= 4 + Abs(a) \div 400
CloseRow(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : CloseV(a[i], b[i])
CloseRows(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : CloseRow(a[i], b[i])
\* the number of frames of the result, by the kind of the module
OutLen(k, n) ==
  CASE k[1] = "same" -> n
    [] k[1] = "down" -> CeilDiv(n, k[2])                            \* padding "same", stride
    [] k[1] = "valid" -> IF n < k[2] THEN 0 ELSE (n - k[2]) \div k[3] + 1 \* windows of k[2] frames, every k[3] frames
    [] k[1] = "one" -> 1
MInit(cfg) == [ref |-> [s \in DOMAIN cfg.lens |-> [x \in {} |-> 0]]]
MBad(st, cfg, e) ==
  LET R == st.ref[e.s]
      known == e.key \in DOMAIN R
  IN CASE e.op = "full" ->
            If(e.key = "y" /\ Len(e.y) # OutLen(cfg.frames, cfg.lens[e.s]), "wrong-number-of-frames")
            \cup If(known /\ ~CloseRows(R[e.key], e.y), "depends-on-the-batch")
       [] e.op = "step" -> If(~(e.t \in DOMAIN R[e.key]), "no-such-frame") \cup If(e.t \in DOMAIN R[e.key] /\ ~CloseRow(R[e.key][e.t], e.y), "step-by-step-differs")
       [] e.op = "prefix" -> If(~CloseRows(SubSeq(R[e.key], 1, Len(e.y)), e.y), "depends-on-later-frames") \cup If(Len(e.y) # e.n, "wrong-number-of-frames")
       [] e.op = "pad" -> If(e.nonzero, "padding-has-influence")
       [] OTHER -> {e.op}
MUpd(st, cfg, e) ==
  IF e.op = "full" /\ ~(e.key \in DOMAIN st.ref[e.s]) THEN [st EXCEPT !.ref[e.s] = (e.key :> e.y) @@ @] ELSE st
MEnd(st, cfg) == {}
=============================================================================
