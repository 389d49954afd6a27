----------------------------- MODULE SeqModelMC -----------------------------
(* A batch machine: sequences of different lengths run frame by frame in one   *)
(* padded batch (arbitrary values in the padding), a recurrent state which is  *)
(* frozen after the end, and a causal history sum.  Whatever the padding and   *)
(* the batch, each sequence sees its own result, and the state at the end is   *)
(* the state after its last frame, so that one can continue from there.        *)
EXTENDS SeqModel
CONSTANTS NB, NMax, V
VARIABLES xs, t, h, out, hist
vars == <<xs, t, h, out, hist>>
Vals == 0..V
F(a, x) == (2 * a + x + 1) % 7
Seqs == UNION {[1..n -> Vals] : n \in 0..NMax}
RECURSIVE Fold(_)
Fold(s) == IF s = <<>> THEN 0 ELSE F(Fold(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s) + Sum(Tail(s))
MaxLen == LET L == {Len(xs[b]) : b \in 1..NB} IN CHOOSE m \in L : \A n \in L : n <= m
Init == xs \in [1..NB -> Seqs] /\ t = 0 /\ h = [b \in 1..NB |-> 0] /\ out = [b \in 1..NB |-> <<>>] /\ hist = [b \in 1..NB |-> 0]
Step == /\ t < MaxLen /\ t' = t + 1 /\ UNCHANGED xs
        /\ \E g \in [1..NB -> Vals] :
             LET in(b) == IF t < Len(xs[b]) THEN xs[b][t + 1] ELSE g[b]
             IN /\ h' = [b \in 1..NB |-> IF t < Len(xs[b]) THEN F(h[b], in(b)) ELSE h[b]]
                /\ hist' = [b \in 1..NB |-> hist[b] + in(b)]
                /\ out' = [b \in 1..NB |-> Append(out[b], <<F(h[b], in(b)), hist[b] + in(b)>>)]
Spec == Init /\ [][Step]_vars
Inv == \A b \in 1..NB :
         /\ \A i \in 1..Len(xs[b]) : i <= t => out[b][i] = <<Fold(SubSeq(xs[b], 1, i)), Sum(SubSeq(xs[b], 1, i))>>
         /\ (t >= Len(xs[b]) => h[b] = Fold(xs[b]))
=============================================================================
