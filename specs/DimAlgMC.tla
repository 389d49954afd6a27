----------------------------- MODULE DimAlgMC -----------------------------
(***************************************************************************)
(* The rewriting rules of the dim math, for all small sizes: which ones    *)
(* preserve the size. RULES which hold are in Sound, and those which must  *)
(* not be applied have a witness (Unsound).                                *)
(***************************************************************************)
EXTENDS DimAlg
CONSTANTS N, K
VARIABLES x
S == 0..N
C == 1..K
Init == x \in [a : S, b : S, c : C, d : C]
Spec == Init /\ [][UNCHANGED x]_x
a == x.a
b == x.b
c == x.c
d == x.d
Sound ==
  /\ CeilDiv(CeilDiv(a, c), d) = CeilDiv(a, c * d)
  /\ FloorDiv(FloorDiv(a, c), d) = FloorDiv(a, c * d)
  /\ CeilDiv(a * c, c) = a
  /\ FloorDiv(a * c + b * c, c) = a + b
  /\ CeilDiv(a * c + b * c, c) = a + b
  /\ (a + b) * c = a * c + b * c
  /\ (a >= c => Max0(a - c) + c = a)
  /\ (a >= c + d => Max0(Max0(a - c) - d) = Max0(a - (c + d)))
  /\ Max0(Max0(a - c) - d) = Max0(a - (c + d))
  /\ (a + b >= c => Max0(a + b - c) = a + b - c)
  /\ CeilDiv(a, c) * c >= a
\* rules which are wrong in general: each has a witness
Unsound(r, a_, b_, c_, d_) ==
  CASE r = "ceildiv-through-product" -> CeilDiv(b_ * CeilDiv(a_, c_), d_) # b_ * CeilDiv(a_, c_ * d_)
    [] r = "clip-partial-sum" -> a_ + b_ >= c_ /\ Max0(a_ - c_) + b_ # a_ + b_ - c_
    [] r = "ceildiv-over-sum" -> CeilDiv(a_ + b_, c_) # CeilDiv(a_, c_) + CeilDiv(b_, c_)
    [] r = "mul-after-ceildiv" -> CeilDiv(a_, c_) * c_ # a_
ASSUME \A r \in {"ceildiv-through-product", "clip-partial-sum", "ceildiv-over-sum", "mul-after-ceildiv"} :
         \E a_ \in S, b_ \in S, c_ \in C, d_ \in C : Unsound(r, a_, b_, c_, d_)
Inv == Sound
=============================================================================
