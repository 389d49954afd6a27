------------------------------ MODULE AlignMC ------------------------------
(* Two machines against the definitions.                                       *)
(* "ctc": frames are read one by one; alpha counts the ways to be in each state *)
(*   of the label sequence with blanks in between (the forward recursion).     *)
(* "ed": the symbols of a are read one by one; row is updated in place from     *)
(*   left to right; the best completion is the minimum of the row, and that is  *)
(*   what the best of all actual completions reaches.                          *)
EXTENDS Align
CONSTANTS K, MaxL, MaxT
VARIABLES mode, lab, alpha, t, a, row
vars == <<mode, lab, alpha, t, a, row>>
Blank == K - 1
Labs == UNION {IF n = 0 THEN {<<>>} ELSE [1 .. n -> 0 .. K - 2] : n \in 0 .. MaxL}
Syms == UNION {IF n = 0 THEN {<<>>} ELSE [1 .. n -> 0 .. K - 1] : n \in 0 .. MaxL}
Ext == [i \in 1 .. 2 * Len(lab) + 1 |-> IF i % 2 = 1 THEN Blank ELSE lab[i \div 2]]
Init == \/ mode = "ctc" /\ lab \in Labs /\ t = 0 /\ a = <<>> /\ row = <<>> /\ alpha = <<>>
        \/ mode = "ed" /\ lab \in Syms /\ t = 0 /\ a = <<>> /\ row = [j \in 1 .. Len(lab) + 1 |-> j - 1] /\ alpha = <<>>
Get(f, i) == IF i \in DOMAIN f THEN f[i] ELSE 0
Skip(i) == i > 2 /\ Ext[i] # Blank /\ Ext[i] # Ext[i - 2]
Frame == /\ mode = "ctc" /\ t < MaxT /\ t' = t + 1
         /\ alpha' = [i \in DOMAIN Ext |-> IF t = 0 THEN (IF i <= 2 THEN 1 ELSE 0)
                                           ELSE Get(alpha, i) + Get(alpha, i - 1) + (IF Skip(i) THEN Get(alpha, i - 2) ELSE 0)]
         /\ UNCHANGED <<mode, lab, a, row>>
RECURSIVE NextRow(_, _, _)
NextRow(r, x, j) == IF j = 1 THEN <<r[1] + 1>>
                    ELSE LET q == NextRow(r, x, j - 1)
                         IN Append(q, Min({q[j - 1] + 1, r[j] + 1, r[j - 1] + (IF lab[j - 1] = x THEN 0 ELSE 1)}))
Read == /\ mode = "ed" /\ t < MaxT
        /\ \E x \in 0 .. K - 1 : a' = Append(a, x) /\ row' = NextRow(row, x, Len(lab) + 1)
        /\ t' = t + 1 /\ UNCHANGED <<mode, lab, alpha>>
Next == Frame \/ Read
Spec == Init /\ [][Next]_vars
Forward == mode = "ctc" /\ t > 0 => Get(alpha, Len(Ext)) + Get(alpha, Len(Ext) - 1) = Cardinality(Aligns(lab, t, K, Blank, TRUE))
Rows == mode = "ed" => row = LevRow(a, lab)
Completion == mode = "ed" => OcLev(a, lab) = Min({Lev(a \o c, lab) : c \in Syms})
Symmetric == mode = "ed" => Lev(a, lab) = Lev(lab, a)
=============================================================================
