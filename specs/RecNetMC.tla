------------------------------ MODULE RecNetMC ------------------------------
(* Moving layers out of the loop: a layer can be computed before the loop, for  *)
(* all frames at once, when its arguments are (and none is a prev reference);   *)
(* it can be computed after the loop when nothing in the loop needs it.  For    *)
(* all small networks, any choice of layers moved out which respects that gives *)
(* the step equations.                                                          *)
EXTENDS RecNet
CONSTANTS NL, NT, V
VARIABLES net, X, phase, before, after, vals, t, p
vars == <<net, X, phase, before, after, vals, t, p>>
Refs(i) == {<<"x">>} \cup {<<"l", j>> : j \in 1..(i - 1)} \cup {<<"p", j>> : j \in 1..NL}
Ls(i) == {[k |-> "add", a |-> <<r, s>>, init |-> 0, c |-> <<0, 0>>] : r \in Refs(i), s \in Refs(i)}
         \cup {[k |-> "cumsum", a |-> <<r>>, init |-> 0, c |-> <<0, 0>>] : r \in Refs(i)}
Nets == {n \in [1..NL -> UNION {Ls(i) : i \in 1..NL}] : \A i \in 1..NL : n[i] \in Ls(i)}
Deps(i) == {net[i].a[k][2] : k \in {k \in DOMAIN net[i].a : net[i].a[k][1] = "l"}}
PDeps(i) == {net[i].a[k][2] : k \in {k \in DOMAIN net[i].a : net[i].a[k][1] = "p"}}
OkBefore(S) == \A i \in S : Deps(i) \subseteq S /\ PDeps(i) = {}
\* used by a layer which is still in the loop
OkAfter(S, T) == \A i \in 1..NL : i \notin S \cup T => (Deps(i) \cup PDeps(i)) \cap T = {}
\* a layer moved out after the loop must not depend on itself via prev
OkAfterP(T) == \A i \in T : \A j \in PDeps(i) : j \notin T
Init == /\ net \in Nets /\ X \in UNION {[1..n -> [1..1 -> 0..V]] : n \in 1..NT} /\ phase = "choose"
        /\ before = {} /\ after = {} /\ vals = <<>> /\ t = 0 /\ p = InitSt(net, 1)
Choose == /\ phase = "choose" /\ phase' = "loop"
          /\ \E S \in SUBSET (1..NL) : \E T \in SUBSET ((1..NL) \ S) : OkBefore(S) /\ OkAfter(S, T) /\ OkAfterP(T) /\ before' = S /\ after' = T
          /\ vals' = [i \in 1..NL |-> <<>>] /\ UNCHANGED <<net, X, t, p>>
\* whole-sequence evaluation of a layer, given the sequences of its arguments
ArgSeq(r, vs) == CASE r[1] = "x" -> X [] r[1] = "l" -> vs[r[2]] [] r[1] = "p" -> [q \in DOMAIN X |-> IF q = 1 THEN <<net[r[2]].init>> ELSE vs[r[2]][q - 1]]
RECURSIVE Cum(_, _)
Cum(s, acc) == IF s = <<>> THEN <<>> ELSE LET v == Zip(acc, Head(s), Add) IN <<v>> \o Cum(Tail(s), v)
Whole(i, vs) == IF net[i].k = "add" THEN LET a == ArgSeq(net[i].a[1], vs) b == ArgSeq(net[i].a[2], vs) IN [q \in DOMAIN X |-> Zip(a[q], b[q], Add)]
                ELSE Cum(ArgSeq(net[i].a[1], vs), <<net[i].init>>)
RECURSIVE WholeAll(_, _, _)
WholeAll(S, i, vs) == IF i > NL THEN vs ELSE WholeAll(S, i + 1, IF i \in S THEN [vs EXCEPT ![i] = Whole(i, vs)] ELSE vs)
RECURSIVE FrameL(_, _, _, _)
FrameL(i, cur, pre, q) ==
  IF i > NL THEN cur
  ELSE FrameL(i + 1, IF i \in before THEN [cur EXCEPT !.o[i] = pre[i][q]]
                     ELSE IF i \in after THEN cur
                     ELSE LET r == LayerStep(net[i], i, cur, p, X[q], q - 1, X, 1) IN [o |-> [cur.o EXCEPT ![i] = r.o], aux |-> [cur.aux EXCEPT ![i] = r.aux]], pre, q)
Loop == /\ phase = "loop" /\ t < Len(X)
        /\ LET pre == WholeAll(before, 1, [i \in 1..NL |-> <<>>])
               c == FrameL(1, p, pre, t + 1)
           IN p' = c /\ vals' = [i \in 1..NL |-> IF i \in before THEN pre[i] ELSE IF i \in after THEN <<>> ELSE Append(vals[i], c.o[i])]
        /\ t' = t + 1 /\ UNCHANGED <<net, X, phase, before, after>>
After == /\ phase = "loop" /\ t = Len(X) /\ phase' = "done" /\ vals' = WholeAll(after, 1, vals) /\ UNCHANGED <<net, X, before, after, t, p>>
Next == Choose \/ Loop \/ After
Spec == Init /\ [][Next]_vars
Inv == phase = "done" => LET d == Result(net, X, 1) IN \A i \in 1..NL : \A q \in DOMAIN X : vals[i][q] = d[q][i]
=============================================================================
