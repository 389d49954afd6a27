------------------------------- MODULE Forward -------------------------------
(***************************************************************************)
(* The forward task: init once, then every sequence of the dataset exactly *)
(* once with its own outputs (no padding, no batch axis, nothing of other  *)
(* sequences), then finish once - however the sequences were batched,      *)
(* sorted, or a batch had to be split because memory ran out.              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
Range(s) == {s[i] : i \in DOMAIN s}
RECURSIVE SumSeq(_)
SumSeq(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumSeq(Tail(s))
\* s: [x |-> frames (single feature values), y |-> labels]; nf features: x, x+1, ..
Flat2(n, m, F(_, _)) == [i \in 1..(n * m) |-> F((i - 1) \div m + 1, ((i - 1) % m) + 1)]
MaxI(a, b) == IF a > b THEN a ELSE b
Out(k, s, nf) ==
  LET T == Len(s.x)
      U == Len(s.y)
  IN CASE k = "plus" -> <<<<T, nf>>, Flat2(T, nf, LAMBDA t, f : s.x[t] + f)>>
       [] k = "tbf" -> <<<<T, nf>>, Flat2(T, nf, LAMBDA t, f : s.x[t] + f - 1)>>
       [] k = "sum" -> <<<<>>, <<SumSeq(s.x)>>>>
       [] k = "flag" -> <<<<>>, <<IF T > U THEN 1 ELSE 0>>>>
       [] k = "lab" -> <<<<U>>, s.y>>
       [] k = "half" -> <<<<(T + 1) \div 2>>, [i \in 1..((T + 1) \div 2) |-> s.x[2 * i - 1]]>>
       [] k = "outer" -> <<<<U, T>>, Flat2(U, T, LAMBDA u, t : s.y[u] * 100 + s.x[t])>>
       [] k = "static" -> <<<<3>>, <<SumSeq(s.y), SumSeq(s.y) + 1, SumSeq(s.y) + 2>>>>
       [] k = "beam" -> <<<<2, MaxI(T, U)>>, <<>>>>  \* sizes T and U for the two hypotheses: compared without the padding (driver)
\* beam: the driver reports the two hypotheses separately
Hyps(s) == <<s.x, s.y>>
FInit(cfg) == [ph |-> "new", seen |-> {}]
FBad(st, cfg, e) ==
  CASE e.op = "init" -> If(st.ph # "new" /\ st.ph # "done", "init-again")
    [] e.op = "seq" ->
         If(st.ph # "run", "sequence-outside-of-init-finish")
         \cup If(~\E i \in DOMAIN cfg.seqs : cfg.seqs[i].tag = e.tag, "unknown-sequence")
         \cup If(e.tag \in st.seen, "sequence-twice")
         \cup UNION {LET s == cfg.seqs[i] IN
                      If({o[1] : o \in Range(e.outs)} # Range(cfg.keys), "outputs-missing")
                      \cup If(\E o \in Range(e.outs) : o[2] # Out(o[1], s, cfg.nf)[1], "wrong-shape")
                      \cup If(\E o \in Range(e.outs) : o[1] # "beam" /\ o[3] # Out(o[1], s, cfg.nf)[2], "wrong-output")
                      \cup If(\E o \in Range(e.outs) : o[1] = "beam" /\ o[4] # Hyps(s), "wrong-output")
                     : i \in {j \in DOMAIN cfg.seqs : cfg.seqs[j].tag = e.tag}}
    [] e.op = "finish" -> If(st.ph # "run", "finish-again") \cup If(st.seen # {cfg.seqs[i].tag : i \in DOMAIN cfg.seqs}, "sequences-missing")
    [] e.op = "order" -> {}
    [] OTHER -> {e.op}
FUpd(st, cfg, e) ==
  CASE e.op = "init" -> [ph |-> "run", seen |-> {}]
    [] e.op = "seq" -> [st EXCEPT !.seen = @ \cup {e.tag}]
    [] e.op = "finish" -> [st EXCEPT !.ph = "done"]
    [] OTHER -> st
FEnd(st, cfg) == If(st.ph # "done", "not-finished")
=============================================================================
