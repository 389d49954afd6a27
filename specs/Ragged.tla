------------------------------- MODULE Ragged -------------------------------
(***************************************************************************)
(* RETURNN frontend ops on padded batches, defined on the sequences which  *)
(* the batch denotes.  A value is a sequence (over the batch) of sequences *)
(* (over time) of frames (integer vectors); padding does not exist here.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
Range(s) == {s[i] : i \in DOMAIN s}
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
CeilDiv(a, b) == (a + b - 1) \div b
RECURSIVE SumS(_)
SumS(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumS(Tail(s))
MaxSet(S) == CHOOSE m \in S : \A x \in S : x <= m
MinSet(S) == CHOOSE m \in S : \A x \in S : x >= m
Nat0(n) == IF n > 0 THEN n ELSE 0
Mk(n, F(_)) == [i \in 1..Nat0(n) |-> F(i)]
Const(n, f, v) == Mk(n, LAMBDA t : Mk(f, LAMBDA j : v))
MapF(x, F(_)) == [t \in DOMAIN x |-> [j \in DOMAIN x[t] |-> F(x[t][j])]]
RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flatten(Tail(ss))
RECURSIVE Cum(_, _)
Cum(x, acc) == IF x = <<>> THEN <<>> ELSE LET a == [j \in DOMAIN x[1] |-> acc[j] + x[1][j]] IN <<a>> \o Cum(Tail(x), a)
Keep(x, P(_)) == SelectSeq(x, P)
RECURSIVE InsD(_, _)
InsD(s, v) == IF s = <<>> THEN <<v>> ELSE IF v > Head(s) THEN <<v>> \o s ELSE <<Head(s)>> \o InsD(Tail(s), v)
RECURSIVE SortD(_)
SortD(s) == IF s = <<>> THEN <<>> ELSE InsD(SortD(Tail(s)), Head(s))
Rev(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
\* frames at a (possibly outside) position
At(x, t, f, v) == IF t \in DOMAIN x THEN x[t] ELSE Mk(f, LAMBDA j : v)
\* window positions: <<number of windows, first position of window i>> for "same"/"valid" padding
NOut(n, k, s, d, same) == IF same THEN CeilDiv(n, s) ELSE CeilDiv(Nat0(n - (k - 1) * d), s)
First(i, k, s, d, same) == 1 + (i - 1) * s - (IF same THEN ((k - 1) * d) \div 2 ELSE 0)
\* one sequence x with f features; op = <<name, args...>>, b = index in the batch
Seq1(op, x, f, b) ==
  LET n == Len(x) IN
  CASE op[1] = "id" -> x
    [] op[1] = "add" -> MapF(x, LAMBDA v : v + op[2])
    [] op[1] = "mul" -> MapF(x, LAMBDA v : v * op[2])
    [] op[1] = "mod" -> MapF(x, LAMBDA v : v % op[2])
    [] op[1] = "pos" -> [t \in DOMAIN x |-> [j \in DOMAIN x[t] |-> x[t][j] + t - 1]]
    [] op[1] = "rev" -> Rev(x)
    [] op[1] = "shr" -> Mk(n, LAMBDA t : At(x, t - op[2], f, op[3]))
    [] op[1] = "shl" -> Mk(n, LAMBDA t : At(x, t + op[2], f, op[3]))
    [] op[1] = "pad" -> Mk(n + op[2] + op[3], LAMBDA t : At(x, t - op[2], f, op[4]))
    [] op[1] = "padt" -> Mk(n + op[2][b], LAMBDA t : At(x, t, f, op[3]))
    [] op[1] = "padl" -> Mk(n + op[2][b], LAMBDA t : At(x, t - op[2][b], f, op[3]))
    [] op[1] = "slice" -> LET m == n - op[2] - op[3] IN Mk(CeilDiv(Nat0(m), op[4]), LAMBDA t : x[op[2] + (t - 1) * op[4] + 1])
    [] op[1] = "slicesize" -> Mk(op[3], LAMBDA t : x[op[2] + t])
    [] op[1] = "prefix" -> Const(op[2], f, op[3]) \o x
    [] op[1] = "postfix" -> x \o Const(op[2], f, op[3])
    [] op[1] = "slnd" -> Mk(op[3], LAMBDA t : At(x, op[2][b] + t, f, 0)) \* per-sequence start, fixed size
    [] op[1] = "slstart" -> Mk(n - op[2][b], LAMBDA t : At(x, op[2][b] + t, f, 0)) \* per-sequence start, to the end
    [] op[1] = "rep" -> Flatten([t \in DOMAIN x |-> Mk(IF t = 1 THEN 1 ELSE x[t][1] % op[2], LAMBDA i : x[t])])
    [] op[1] = "rcumsum" -> IF x = <<>> THEN <<>> ELSE Rev(Cum(Rev(x), [j \in DOMAIN x[1] |-> 0]))
    [] op[1] = "cumsum" -> IF x = <<>> THEN <<>> ELSE Cum(x, [j \in DOMAIN x[1] |-> 0])
    [] op[1] = "msel" -> Keep(x, LAMBDA y : y[1] % op[2] # 0)
    [] op[1] = "mscat" -> [t \in DOMAIN x |-> IF x[t][1] % op[2] # 0 THEN x[t] ELSE Mk(f, LAMBDA j : op[3])]
    [] op[1] = "twice" -> Mk(2 * n, LAMBDA t : x[(t + 1) \div 2])
    [] op[1] = "where" -> [t \in DOMAIN x |-> IF x[t][1] > op[2] THEN x[t] ELSE Mk(f, LAMBDA j : op[3])]
    [] op[1] = "win" -> \* op: size, left, stride, same
         LET k == op[2]
             m == IF op[5] THEN CeilDiv(n, op[4]) ELSE CeilDiv(Nat0(n - k + 1), op[4])
         IN Mk(m, LAMBDA i : Flatten(Mk(k, LAMBDA w : At(x, 1 + (i - 1) * op[4] + (w - 1) - (IF op[5] THEN op[3] ELSE 0), f, 0))))
    [] op[1] = "maxpool" -> \* size, stride, dilation, same
         Mk(NOut(n, op[2], op[3], op[4], op[5]), LAMBDA i :
            [j \in 1..f |-> MaxSet({x[t][j] : t \in {u \in DOMAIN x : \E w \in 0..(op[2] - 1) : u = First(i, op[2], op[3], op[4], op[5]) + w * op[4]}})])
    [] op[1] = "conv" -> \* size, stride, dilation, same, weights[out][in][k]
         Mk(NOut(n, op[2], op[3], op[4], op[5]), LAMBDA i :
            [o \in DOMAIN op[6] |->
               SumS(Flatten(Mk(op[2], LAMBDA w :
                  [j \in 1..f |-> op[6][o][j][w] * At(x, First(i, op[2], op[3], op[4], op[5]) + (w - 1) * op[4], f, 0)[j]])))])
    [] op[1] = "maxpooll" -> \* size, stride, left padding
         Mk(CeilDiv(n, op[3]), LAMBDA i :
            [j \in 1..f |-> MaxSet({x[t][j] : t \in {u \in DOMAIN x : \E w \in 0..(op[2] - 1) : u = 1 + (i - 1) * op[3] - op[4] + w}})])
    [] op[1] = "convl" -> \* size, stride, left padding, weights
         Mk(CeilDiv(n, op[3]), LAMBDA i :
            [o \in DOMAIN op[5] |->
               SumS(Flatten(Mk(op[2], LAMBDA w :
                  [j \in 1..f |-> op[5][o][j][w] * At(x, 1 + (i - 1) * op[3] - op[4] + (w - 1), f, 0)[j]])))])
    [] op[1] = "topkf" -> [t \in DOMAIN x |-> SubSeq(SortD(x[t]), 1, op[2])]
    [] op[1] = "sortf" -> [t \in DOMAIN x |-> Rev(SortD(x[t]))]
    [] op[1] = "unfold" -> Flatten([t \in DOMAIN x |-> Mk(op[2], LAMBDA w : SubSeq(x[t], (w - 1) * (f \div op[2]) + 1, w * (f \div op[2])))])
    [] op[1] = "stack" -> [t \in DOMAIN x |-> x[t] \o [j \in DOMAIN x[t] |-> x[t][j] + op[2]]]
    [] op[1] = "splitf" -> [t \in DOMAIN x |-> SubSeq(x[t], op[2] + 1, f)]
    [] op[1] = "dot" -> [t \in DOMAIN x |-> [o \in DOMAIN op[2] |-> SumS([j \in 1..f |-> op[2][o][j] * x[t][j]])]]
    [] op[1] = "sumf" -> [t \in DOMAIN x |-> <<SumS(x[t])>>]
    [] op[1] = "addseq" -> [t \in DOMAIN x |-> [j \in DOMAIN x[t] |-> x[t][j] + op[2][b]]]
    [] op[1] = "subsum" -> \* subtract the sum over time (a reduction broadcast back)
         [t \in DOMAIN x |-> [j \in DOMAIN x[t] |-> x[t][j] - SumS([u \in DOMAIN x |-> x[u][j]])]]
    [] op[1] = "padtf" -> \* both axes at once: left/right of time, left/right of the features
         Mk(n + op[2] + op[3], LAMBDA t : Mk(f + op[4] + op[5], LAMBDA j :
            IF t - op[2] \in DOMAIN x /\ j - op[4] \in 1..f THEN x[t - op[2]][j - op[4]] ELSE op[6]))
    [] op[1] = "gatc" -> Mk(Len(op[2]), LAMBDA i : x[1 + Max2(0, Min2(n - 1, op[2][i]))]) \* fixed positions, clipped to the sequence
    [] op[1] = "gatb" -> Mk(Len(op[2][b]), LAMBDA i : x[1 + Max2(0, Min2(n - 1, op[2][b][i]))]) \* positions per sequence
    [] op[1] = "slneg" -> Mk(op[2] - op[3], LAMBDA t : x[n - op[2] + t]) \* counted from the end (fixed length)
    [] op[1] = "conv2" -> \* time and feature as spatial axes: sizes, strides, dilations, same, weights[k1][k2]
         Mk(NOut(n, op[2][1], op[3][1], op[4][1], op[5]), LAMBDA i : Mk(NOut(f, op[2][2], op[3][2], op[4][2], op[5]), LAMBDA j :
            SumS(Flatten(Mk(op[2][1], LAMBDA v : Mk(op[2][2], LAMBDA w :
               LET t == First(i, op[2][1], op[3][1], op[4][1], op[5]) + (v - 1) * op[4][1]
                   u == First(j, op[2][2], op[3][2], op[4][2], op[5]) + (w - 1) * op[4][2]
               IN IF t \in DOMAIN x /\ u \in 1..f THEN op[6][v][w] * x[t][u] ELSE 0))))))
    [] op[1] = "maxpool2" ->
         Mk(NOut(n, op[2][1], op[3][1], op[4][1], op[5]), LAMBDA i : Mk(NOut(f, op[2][2], op[3][2], op[4][2], op[5]), LAMBDA j :
            MaxSet({x[t][u] : t \in {q \in DOMAIN x : \E w \in 0..(op[2][1] - 1) : q = First(i, op[2][1], op[3][1], op[4][1], op[5]) + w * op[4][1]},
                              u \in {q \in 1..f : \E w \in 0..(op[2][2] - 1) : q = First(j, op[2][2], op[3][2], op[4][2], op[5]) + w * op[4][2]}})))
    [] OTHER -> <<"unknown op">>
Apply(op, xs, f) == [b \in DOMAIN xs |-> Seq1(op, xs[b], f, b)]
\* number of features after the op
NFeat(op, f) ==
  CASE op[1] = "win" -> f * op[2]
    [] op[1] = "conv" -> Len(op[6])
    [] op[1] = "convl" -> Len(op[5])
    [] op[1] = "topkf" -> op[2]
    [] op[1] = "unfold" -> f \div op[2]
    [] op[1] = "stack" -> 2 * f
    [] op[1] = "splitf" -> f - op[2]
    [] op[1] = "dot" -> Len(op[2])
    [] op[1] = "sumf" -> 1
    [] op[1] = "padtf" -> f + op[4] + op[5]
    [] op[1] \in {"conv2", "maxpool2"} -> NOut(f, op[2][2], op[3][2], op[4][2], op[5])
    [] OTHER -> f
\* --- reductions ---
Col(x, j) == [t \in DOMAIN x |-> x[t][j]]
RECURSIVE EditD(_, _)
EditD(a, b) == \* small sequences
  LET R[i \in 0..Len(a), j \in 0..Len(b)] ==
        IF i = 0 THEN j ELSE IF j = 0 THEN i
        ELSE MinSet({R[i - 1, j] + 1, R[i, j - 1] + 1, R[i - 1, j - 1] + (IF a[i] = b[j] THEN 0 ELSE 1)})
  IN R[Len(a), Len(b)]
PerSeq(r, x, f) ==
  CASE r[1] = "sum" -> [j \in 1..f |-> SumS(Col(x, j))]
    [] r[1] = "max" -> [j \in 1..f |-> MaxSet(Range(Col(x, j)))]
    [] r[1] = "min" -> [j \in 1..f |-> MinSet(Range(Col(x, j)))]
    [] r[1] = "mean" -> [j \in 1..f |-> SumS(Col(x, j))]  \* reported times the length
    [] r[1] = "any" -> [j \in 1..f |-> IF \E t \in DOMAIN x : x[t][j] % 3 = 0 THEN 1 ELSE 0]
    [] r[1] = "all" -> [j \in 1..f |-> IF \A t \in DOMAIN x : x[t][j] % 3 = 0 THEN 1 ELSE 0]
    [] r[1] = "last" -> IF x = <<>> THEN <<>> ELSE x[Len(x)]
    [] r[1] = "sumtf" -> <<SumS([t \in DOMAIN x |-> SumS(x[t])])>>
    [] r[1] = "hist" -> [c \in 1..4 |-> Cardinality({t \in DOMAIN x : x[t][1] % 4 = c - 1})]
    [] r[1] = "gram" -> Flatten([i \in 1..f |-> [j \in 1..f |-> SumS([t \in DOMAIN x |-> x[t][i] * x[t][j]])]])
    [] r[1] = "edit" -> <<EditD([t \in DOMAIN x |-> x[t][1] % 3], [t \in DOMAIN x |-> x[Len(x) + 1 - t][f] % 3])>>
    [] r[1] = "numel" -> <<Len(x)>>
    [] r[1] = "gati" -> x[1 + Max2(0, Min2(Len(x) - 1, r[2]))]
    [] r[1] = "frob" -> <<SumS([t \in DOMAIN x |-> SumS([j \in 1..f |-> x[t][j] * x[t][j]])])>>
    [] r[1] \in {"smax", "smin", "ssum", "sarg"} -> \* scatter the frames by their class (x[t][1] modulo 4); fill value r[2]
         Flatten([c \in 1..4 |->
           LET T == {t \in DOMAIN x : x[t][1] % 4 = c - 1} IN
           [j \in 1..f |->
             IF T = {} THEN r[2]
             ELSE IF r[1] = "ssum" THEN SumS([t \in DOMAIN x |-> IF t \in T THEN x[t][j] ELSE 0])
             ELSE IF r[1] = "smax" THEN MaxSet({x[t][j] : t \in T})
             ELSE IF r[1] = "smin" THEN MinSet({x[t][j] : t \in T})
             ELSE MinSet({t - 1 : t \in {u \in T : x[u][j] = MaxSet({x[t][j] : t \in T})}})]])
    [] r[1] = "topkt" -> SubSeq(SortD(Col(x, 1)), 1, r[2])
All(r, xs, f) == \* over batch and time
  LET cat == Flatten(xs) IN
  CASE r[1] = "sumbt" -> [j \in 1..f |-> SumS(Col(cat, j))]
    [] r[1] = "maxbt" -> [j \in 1..f |-> MaxSet(Range(Col(cat, j)))]
    [] r[1] = "minbt" -> [j \in 1..f |-> MinSet(Range(Col(cat, j)))]
    [] r[1] = "meanbt" -> [j \in 1..f |-> SumS(Col(cat, j))]  \* reported times the number of frames
    [] r[1] = "grambt" -> Flatten([i \in 1..f |-> [j \in 1..f |-> SumS([t \in DOMAIN cat |-> cat[t][i] * cat[t][j]])]])
    [] r[1] = "numelbt" -> <<Len(cat)>>
    [] r[1] = "pack" -> Flatten(cat)
ArgOk(x, f, res, P(_, _)) == \A j \in 1..f : res[j] + 1 \in DOMAIN x /\ \A t \in DOMAIN x : P(x[res[j] + 1][j], x[t][j])
RInit(cfg) == [xs |-> cfg.xs, f |-> cfg.f]
RBad(st, cfg, e) ==
  CASE e.op = "apply" -> LET y == Apply(e.a, st.xs, st.f) IN
         If([b \in DOMAIN y |-> Len(y[b])] # [b \in DOMAIN e.ys |-> Len(e.ys[b])], "wrong-lengths-" \o e.a[1])
         \cup If(y # e.ys, "wrong-values-" \o e.a[1])
    [] e.op = "red" ->
         If(Len(e.res) # Len(st.xs), "wrong-batch-" \o e.a[1])
         \cup (IF e.a[1] = "argmax" THEN If(\E b \in DOMAIN st.xs : ~ArgOk(st.xs[b], st.f, e.res[b], LAMBDA u, v : u >= v), "wrong-argmax")
               ELSE IF e.a[1] = "argmin" THEN If(\E b \in DOMAIN st.xs : ~ArgOk(st.xs[b], st.f, e.res[b], LAMBDA u, v : u <= v), "wrong-argmin")
               ELSE If(\E b \in DOMAIN st.xs : e.res[b] # PerSeq(e.a, st.xs[b], st.f), "wrong-reduction-" \o e.a[1]))
    [] e.op = "all" -> If(e.res # All(e.a, st.xs, st.f), "wrong-reduction-" \o e.a[1])
    [] OTHER -> {e.op}
RUpd(st, cfg, e) == IF e.op = "apply" THEN [xs |-> Apply(e.a, st.xs, st.f), f |-> NFeat(e.a, st.f)] ELSE st
REnd(st, cfg) == {}
=============================================================================
