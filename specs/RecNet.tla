------------------------------- MODULE RecNet -------------------------------
(***************************************************************************)
(* The recurrent layer: a network of layers is defined per frame, layers   *)
(* refer to other layers of the same frame or (prev) of the frame before.  *)
(* Its result is what these step equations define for each sequence alone, *)
(* whatever part of it is computed outside of the loop and whatever batch  *)
(* the sequence is in.                                                     *)
(* A layer: [k |-> kind, a |-> arguments, init |-> initial output].        *)
(* An argument: <<"l", i>> layer i, <<"p", i>> layer i in the frame before,*)
(* <<"x">> the input frame.  Frames are vectors of integers.               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
Mod(a, m) == a % m
Zip(a, b, Op(_, _)) == [j \in DOMAIN a |-> Op(a[j], b[j])]
Add(a, b) == a + b
Sub(a, b) == a - b
Mul(a, b) == a * b
RECURSIVE SumV(_)
SumV(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumV(Tail(s))
RECURSIVE SumRows(_, _)
SumRows(s, z) == IF s = <<>> THEN z ELSE Zip(Head(s), SumRows(Tail(s), z), Add)
RECURSIVE MaxRows(_)
MaxRows(s) == IF Len(s) = 1 THEN s[1] ELSE Zip(s[1], MaxRows(Tail(s)), Max2)
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
Zero(nf) == [j \in 1..nf |-> 0]
\* p: the state [o |-> outputs, aux |-> internal state] after the frame before; cur: those of this frame so far; x: input frame; t: 0,1,..; X: the whole input
Arg(r, cur, p, x) == CASE r[1] = "x" -> x [] r[1] = "l" -> cur.o[r[2]] [] r[1] = "p" -> p.o[r[2]]
LayerStep(L, i, cur, p, x, t, X, nf) ==
  LET A(k) == Arg(L.a[k], cur, p, x)
      aux == p.aux[i]
      R(o) == [o |-> o, aux |-> aux]
  IN CASE L.k = "copy" -> R(A(1))
       [] L.k = "add" -> R(Zip(A(1), A(2), Add))
       [] L.k = "sub" -> R(Zip(A(1), A(2), Sub))
       [] L.k = "max" -> R(Zip(A(1), A(2), Max2))
       [] L.k = "min" -> R(Zip(A(1), A(2), Min2))
       [] L.k = "mulm" -> R([j \in 1..nf |-> Mod(A(1)[j] * A(2)[j], 11)])
       [] L.k = "aff" -> R([j \in 1..nf |-> Mod(A(1)[j] * L.c[1] + L.c[2], 11)])
       [] L.k = "lin" -> R([j \in 1..nf |-> Mod(SumV([i2 \in 1..nf |-> A(1)[i2] * L.w[i2][j]]), 13)])
       [] L.k = "pos" -> R([j \in 1..nf |-> A(1)[j] + t])
       [] L.k = "sumf" -> R([j \in 1..nf |-> SumV(A(1))])
       [] L.k = "sel" -> R(IF SumV(A(1)) > L.c[1] THEN A(2) ELSE A(3))
       [] L.k = "where" -> R([j \in 1..nf |-> IF A(1)[j] > L.c[1] THEN A(2)[j] ELSE A(3)[j]])
       [] L.k = "cumsum" -> LET s == Zip(aux.v, A(1), Add) IN [o |-> s, aux |-> [v |-> s]]
       [] L.k = "hist" -> LET h == Append(aux.h, A(1)) IN [o |-> IF L.c[1] = 0 THEN SumRows(h, Zero(nf)) ELSE MaxRows(h), aux |-> [h |-> h]]
       [] L.k = "total" -> R(Zip(A(1), SumRows(X, Zero(nf)), Add))
       [] L.k = "at" -> R(LET q == SumV(A(1)) IN X[(q % Len(X)) + 1])
       \* the unit runs only in the frames where the mask is set; in between, the last output is kept
       [] L.k = "masked" -> IF SumV(A(1)) % 2 = 1
                            THEN LET s == IF L.c[1] = 0 THEN A(2) ELSE Zip(aux.s, A(2), Add) IN [o |-> s, aux |-> [s |-> s, o |-> s]]
                            ELSE [o |-> aux.o, aux |-> aux]
InitAux(L, nf) ==
  CASE L.k = "cumsum" -> [v |-> [j \in 1..nf |-> L.init]]
    [] L.k = "hist" -> [h |-> <<>>]
    [] L.k = "masked" -> [s |-> Zero(nf), o |-> Zero(nf)]
    [] OTHER -> [n |-> 0]
InitSt(net, nf) == [o |-> [i \in DOMAIN net |-> [j \in 1..nf |-> net[i].init]], aux |-> [i \in DOMAIN net |-> InitAux(net[i], nf)]]
RECURSIVE Frame(_, _, _, _, _, _, _, _)
Frame(net, i, cur, p, x, t, X, nf) ==
  IF i > Len(net) THEN cur
  ELSE LET r == LayerStep(net[i], i, cur, p, x, t, X, nf)
       IN Frame(net, i + 1, [o |-> [cur.o EXCEPT ![i] = r.o], aux |-> [cur.aux EXCEPT ![i] = r.aux]], p, x, t, X, nf)
\* all frames: a sequence (over time) of outputs of all layers
RECURSIVE Run(_, _, _, _, _, _)
Run(net, xs, t, p, X, nf) ==
  IF xs = <<>> THEN <<>>
  ELSE LET c == Frame(net, 1, p, p, Head(xs), t, X, nf) IN <<c.o>> \o Run(net, Tail(xs), t + 1, c, X, nf)
Result(net, X, nf) == Run(net, X, 0, InitSt(net, nf), X, nf)
\* a loop without input: it stops in the first frame where the end layer (last layer) is positive, or after maxlen frames.
RECURSIVE RunDyn(_, _, _, _, _, _, _)
RunDyn(net, t, p, X, nf, maxlen, incl) ==
  IF t >= maxlen THEN <<>>
  ELSE LET c == Frame(net, 1, p, p, Zero(nf), t, X, nf)
       IN IF SumV(c.o[Len(net)]) > net[Len(net)].end THEN (IF incl THEN <<c.o>> ELSE <<>>)
          ELSE <<c.o>> \o RunDyn(net, t + 1, c, X, nf, maxlen, incl)
Def(cfg, X) == IF cfg.dyn THEN RunDyn(cfg.net, 0, InitSt(cfg.net, cfg.nf), X, cfg.nf, cfg.maxlen, cfg.incl) ELSE Result(cfg.net, X, cfg.nf)
RInit(cfg) == [def |-> [s \in DOMAIN cfg.xs |-> Def(cfg, cfg.xs[s])]]
RBad(st, cfg, e) ==
  CASE e.op = "out" ->
         LET d == st.def[e.s]
         IN If(Len(e.y) # Len(d), "wrong-number-of-frames")
            \cup If(Len(e.y) = Len(d) /\ \E t \in DOMAIN d : e.y[t] # d[t][e.l], "not-the-step-equations")
    [] OTHER -> {e.op}
RUpd(st, cfg, e) == st
REnd(st, cfg) == {}
=============================================================================
