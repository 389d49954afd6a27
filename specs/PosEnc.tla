------------------------------- MODULE PosEnc -------------------------------
(***************************************************************************)
(* Positional encodings are cached; the cache must be transparent: every   *)
(* call returns, on the dims which were asked for, the positions asked for,*)
(* whatever was computed before, whatever dims have been freed, re-used or *)
(* got other sizes in the meantime.                                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
\* n = current (maximal) size of the dim, offs = <<>> or <<offset>> or one offset per batch entry
SinRow(n, ss, o) == IF ss THEN <<o>> ELSE [i \in 1..n |-> i - 1 + o]
SinPos(n, ss, offs) == IF offs = <<>> THEN <<SinRow(n, ss, 0)>> ELSE [b \in DOMAIN offs |-> SinRow(n, ss, offs[b])]
\* all distances key - query without duplicates, the query starting at offset o
RelPos(q, k, o) == [i \in 1..(q - 1 + k) |-> (i - 1) - (q - 1) - o]
\* single step: the query is the last frame of the keys (per batch entry of length ks[b])
RelStepPos(k, ks) == [b \in DOMAIN ks |-> [i \in 1..k |-> (i - 1) - (ks[b] - 1)]]
PInit(cfg) == [x |-> 0]
PBad(st, cfg, e) ==
  CASE e.op = "sin" -> If(~e.dimsok, "wrong-dims") \cup If(~e.consistent, "not-an-encoding") \cup If(e.pos # SinPos(e.n, e.ss, e.offs), "wrong-positions")
    [] e.op = "rel" ->
         If(~e.dimsok, "wrong-dims") \cup If(~e.consistent, "not-an-encoding")
         \cup IF e.ss THEN If(e.pos # RelStepPos(e.k, e.ks), "wrong-positions") ELSE If(e.pos # <<RelPos(e.q, e.k, e.o)>>, "wrong-positions")
    [] e.op = "note" -> {}
    [] OTHER -> {e.op}
PUpd(st, cfg, e) == st
PEnd(st, cfg) == {}
=============================================================================
