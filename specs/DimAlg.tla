------------------------------- MODULE DimAlg -------------------------------
(***************************************************************************)
(* Dims: the size of a derived dim is, per sequence, the arithmetic on the *)
(* sizes of its operands, whatever simplifications the dim math applies;   *)
(* equality is an equivalence relation which never identifies dims of      *)
(* different sizes, agrees with the hash, identifies the same expression   *)
(* and never identifies two dims which were created separately.            *)
(* Assumption (documented in the code): no dim on the way is negative.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
Max0(n) == IF n > 0 THEN n ELSE 0
FloorDiv(a, b) == IF b = 0 THEN 0 ELSE a \div b
CeilDiv(a, b) == IF b = 0 THEN 0 ELSE (a + b - 1) \div b
\* the size of one sequence
Op1(f, a, b) ==
  CASE f = "add" -> a + b
    [] f = "radd" -> a + b
    [] f = "sub" -> Max0(a - b)
    [] f = "sub_left" -> Max0(a - b)
    [] f = "mul" -> a * b
    [] f = "rmul" -> a * b
    [] f \in {"floordiv", "truediv", "truediv_left"} -> FloorDiv(a, b)
    [] f \in {"ceildiv", "ceildiv_left"} -> CeilDiv(a, b)
    [] f \in {"same", "copy", "copyfrom"} -> a
Val(x, vs) ==
  LET A == vs[x.a]
      B == IF x.k = "c" THEN [i \in DOMAIN A |-> x.b] ELSE vs[x.b]
  IN [i \in DOMAIN A |-> Op1(x.f, A[i], B[i])]
MaxOf(s) == CHOOSE m \in {s[i] : i \in DOMAIN s} : \A i \in DOMAIN s : s[i] <= m
\* node: [f, a, k, b] or [f |-> "atom"]
RECURSIVE Eval(_, _, _)
Eval(nodes, atoms, n) == \* the values of the first n nodes
  IF n = 0 THEN <<>>
  ELSE LET vs == Eval(nodes, atoms, n - 1)
       IN Append(vs, IF nodes[n].f = "atom" THEN atoms[n] ELSE Val(nodes[n], vs))
Read(v, e) ==
  If(e.sz # v, "wrong-size")
  \cup If(e.val < MaxOf(v), "dim-value-below-the-longest-sequence")
  \cup If(e.static /\ (\E i \in DOMAIN v : v[i] # e.val), "static-dim-of-other-size")
  \cup If("mask" \in DOMAIN e /\ e.mask # v, "mask-does-not-match-the-sizes")
DInit(cfg) == [nodes |-> <<>>, vs |-> <<>>, ep |-> 0]
DBad(st, cfg, e) ==
  CASE e.op = "atom" -> Read(e.v, e)
    [] e.op = "dim" -> Read(Val(e, st.vs), e)
    [] e.op = "resize" -> {}
    [] e.op = "reread" -> Read(st.vs[e.i], e)
    [] e.op = "eqs" ->
         LET N == DOMAIN st.nodes
             SameEx(i, j) == st.nodes[i].f # "atom" /\ st.nodes[i] = st.nodes[j] /\ st.nodes[i].f \notin {"same", "copy", "copyfrom"}
         IN If(\E i \in N : ~e.m[i][i], "not-equal-to-itself")
            \cup If(\E i, j \in N : e.m[i][j] # e.m[j][i], "equality-not-symmetric")
            \cup If(\E i, j, k \in N : e.m[i][j] /\ e.m[j][k] /\ ~e.m[i][k], "equality-not-transitive")
            \cup If(\E i, j \in N : e.m[i][j] /\ e.h[i] # e.h[j], "equal-but-other-hash")
            \cup If(\E i, j \in N : e.m[i][j] /\ st.vs[i] # st.vs[j], "equal-dims-of-different-size")
            \cup If(\E i, j \in N : SameEx(i, j) /\ ~e.m[i][j], "same-expression-not-equal")
            \cup If(\E i \in N : st.nodes[i].f = "same" /\ ~e.m[i][st.nodes[i].a], "declared-same-but-not-equal")
            \cup If(\E i \in N : st.nodes[i].f \in {"copy", "copyfrom"} /\ e.m[i][st.nodes[i].a], "new-dim-equal-to-the-old")
            \cup If(\E i, j \in N : i # j /\ st.nodes[i].f = "atom" /\ st.nodes[j].f = "atom" /\ e.m[i][j], "distinct-dims-equal")
    [] OTHER -> {e.op}
Strip(e, ep) == [f |-> e.f, a |-> e.a, k |-> e.k, b |-> e.b, ep |-> ep]
DUpd(st, cfg, e) ==
  CASE e.op = "atom" -> [st EXCEPT !.nodes = Append(@, [f |-> "atom"]), !.vs = Append(@, e.v)]
    [] e.op = "dim" -> [st EXCEPT !.nodes = Append(@, Strip(e, st.ep)), !.vs = Append(@, Val(e, st.vs))]
    [] e.op = "resize" -> [st EXCEPT !.vs = Eval(st.nodes, e.v, Len(st.nodes)), !.ep = @ + 1]
    [] OTHER -> st
DEnd(st, cfg) == {}
=============================================================================
