------------------------------ MODULE RaggedMC ------------------------------
(* Laws between the definitions, for all small batches (sanity of the oracle).  *)
EXTENDS Ragged
CONSTANTS NMax, VMax, Feat
VARIABLES x
Frames == [1..Feat -> 0..VMax]
Init == x \in UNION {[1..n -> Frames] : n \in 0..NMax}
Spec == Init /\ [][UNCHANGED x]_x
A(op) == Seq1(op, x, Feat, 1)
Inv ==
  /\ Seq1(<<"rev">>, A(<<"rev">>), Feat, 1) = x
  /\ Seq1(<<"slice", 2, 1, 1>>, A(<<"pad", 2, 1, 7>>), Feat, 1) = x
  /\ \A k \in 0..3 : SubSeq(A(<<"pad", k, 0, 5>>), 1, Len(x)) = A(<<"shr", k, 5>>)
  /\ \A k \in 0..3 : Rev(A(<<"shl", k, 5>>)) = Seq1(<<"shr", k, 5>>, Rev(x), Feat, 1)
  /\ A(<<"prefix", 2, 4>>) = A(<<"pad", 2, 0, 4>>)
  /\ \A s \in 1..3 : Len(A(<<"win", 3, 1, s, TRUE>>)) = CeilDiv(Len(x), s)
  /\ A(<<"win", 1, 0, 1, FALSE>>) = x
  /\ A(<<"maxpool", 1, 1, 1, TRUE>>) = x
  /\ \A s \in 1..3 : A(<<"maxpool", 1, s, 1, TRUE>>) = A(<<"slice", 0, 0, s>>)
  /\ LET eye == [o \in 1..Feat |-> [j \in 1..Feat |-> <<0, IF o = j THEN 1 ELSE 0, 0>>]]
     IN \A s \in 1..3 : A(<<"conv", 3, s, 1, TRUE, eye>>) = A(<<"slice", 0, 0, s>>)
  /\ \A d \in 1..2 : Len(A(<<"maxpool", 2, 1, d, FALSE>>)) = Nat0(Len(x) - d)
  /\ (Feat % 2 = 0 => Len(A(<<"unfold", 2>>)) = 2 * Len(x))
  /\ Seq1(<<"slice", 0, 0, 2>>, A(<<"twice">>), Feat, 1) = x
  /\ (x # <<>> => A(<<"cumsum">>)[Len(x)] = PerSeq(<<"sum">>, x, Feat))
  /\ EditD([t \in DOMAIN x |-> x[t][1]], [t \in DOMAIN x |-> x[t][1]]) = 0
  /\ Len(A(<<"msel", 2>>)) = Cardinality({t \in DOMAIN x : x[t][1] % 2 # 0})
=============================================================================
