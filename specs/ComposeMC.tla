----------------------------- MODULE ComposeMC ------------------------------
(***************************************************************************)
(* Reference machines for the two compositions with non-trivial index      *)
(* arithmetic, checked against the laws of Compose:                        *)
(*  combined: a joint order over all parts; the parts are re-initialised   *)
(*            with their share of it, and read with one counter per part   *)
(*  concat:   parts of unknown length, read through load windows; the      *)
(*            offset of a part is discovered when the previous one ends    *)
(***************************************************************************)
EXTENDS Compose
CONSTANTS MaxA, MaxB, MaxWin
VARIABLES na, nb, joint, c, w
vars == <<na, nb, joint, c, w>>
Perms(n) == {f \in [1 .. n -> 1 .. n] : \A i, j \in 1 .. n : i # j => f[i] # f[j]}
Cfg == [law |-> "bag", P |-> 1, R |-> 1, inner |-> <<<<[i \in 1 .. na |-> i - 1], [i \in 1 .. nb |-> na + i - 1]>>>>]
Init == /\ na \in 0 .. MaxA /\ nb \in 1 .. MaxB /\ joint \in Perms(na + nb)
        /\ c = [i |-> 0, cnt |-> <<0, 0>>, out |-> <<>>]
        /\ w = [lo |-> 0, off |-> <<0>>, out |-> <<>>, done |-> FALSE]
PartOf(j) == IF j <= na THEN 1 ELSE 2
SubOrder(d) == SelectSeq(joint, LAMBDA j : PartOf(j) = d)
\* combined: item i is the cnt-th sequence of its part's share
Deliver == /\ c.i < na + nb
           /\ LET d == PartOf(joint[c.i + 1]) IN
              c' = [i |-> c.i + 1, cnt |-> [c.cnt EXCEPT ![d] = @ + 1], out |-> Append(c.out, <<d, SubOrder(d)[c.cnt[d] + 1] - 1>>)]
           /\ UNCHANGED <<na, nb, joint, w>>
\* concat: window [lo, lo + k)
N(d) == IF d = 1 THEN na ELSE nb
PartAt(off, i) == IF Len(off) = 2 /\ i >= off[2] THEN 2 ELSE 1
Load(k) == /\ ~w.done
           /\ LET hi == w.lo + k
                  off == IF Len(w.off) = 1 /\ hi >= na THEN <<0, na>> ELSE w.off
                  last == IF hi > na + nb THEN na + nb ELSE hi
                  new == [j \in 1 .. (last - w.lo) |-> LET i == w.lo + j - 1  d == PartAt(off, i) IN <<d, i>>]
              IN w' = [lo |-> last, off |-> off, out |-> w.out \o new, done |-> last = na + nb]
           /\ UNCHANGED <<na, nb, joint, c>>
Next == Deliver \/ \E k \in 1 .. MaxWin : Load(k)
Spec == Init /\ [][Next]_vars
Item(p) == [d |-> p[1], tag |-> <<p[2]>>]
CombinedOk == c.i = na + nb => OrderOk(Cfg, <<>>, 1, [i \in DOMAIN c.out |-> Item(c.out[i])]) /\ \A i \in DOMAIN c.out : c.out[i][2] = joint[i] - 1
ConcatOk == w.done => OrderOk([Cfg EXCEPT !.law = "concat"], <<>>, 1, [i \in DOMAIN w.out |-> Item(w.out[i])])
=============================================================================
