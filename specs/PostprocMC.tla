----------------------------- MODULE PostprocMC -----------------------------
(* Laplace ordering as an incremental machine: while the sorted bin is handed   *)
(* out one by one, the next bin is pulled from the source.  Whatever the source *)
(* length, the result is the laplace order of the source and it terminates.     *)
EXTENDS Postproc
CONSTANTS NMax, LMax, Bins
VARIABLES src, n, pos, buf, nxt, out, down, ended, pc
vars == <<src, n, pos, buf, nxt, out, down, ended, pc>>
Item(i, k) == [tag |-> i, v |-> [t \in 1..k |-> i], f |-> i]
Srcs == UNION {[1..k -> 0..LMax] : k \in 0..NMax}
Init == /\ \E s \in Srcs : src = [i \in DOMAIN s |-> Item(i, s[i])]
        /\ n \in Bins /\ pos = (IF Len(src) < n THEN Len(src) ELSE n) /\ buf = SubSeq(src, 1, pos) /\ nxt = <<>> /\ out = <<>> /\ down = FALSE /\ ended = FALSE /\ pc = "sort"
Sorted(b, d) == \A i \in 1..(Len(b) - 1) : IF d THEN Len(b[i].v) >= Len(b[i + 1].v) ELSE Len(b[i].v) <= Len(b[i + 1].v)
Perms(b) == {[i \in DOMAIN b |-> b[p[i]]] : p \in {p \in [DOMAIN b -> DOMAIN b] : Range(p) = DOMAIN b}}
Sort == /\ pc = "sort" /\ \E p \in Perms(buf) : Sorted(p, down) /\ buf' = [i \in DOMAIN p |-> [p[i] EXCEPT !.f = buf[i].f]]
        /\ pc' = "emit" /\ nxt' = <<>> /\ UNCHANGED <<src, n, pos, out, down, ended>>
Emitted == Len(nxt)
Emit == /\ pc = "emit" /\ buf # <<>>
        /\ out' = Append(out, Head(buf)) /\ buf' = Tail(buf)
        /\ IF pos < Len(src) THEN nxt' = Append(nxt, src[pos + 1]) /\ pos' = pos + 1 /\ UNCHANGED ended ELSE ended' = TRUE /\ UNCHANGED <<nxt, pos>>
        /\ UNCHANGED <<src, n, down, pc>>
Turn == /\ pc = "emit" /\ buf = <<>>
        /\ IF nxt = <<>> THEN pc' = "done" /\ UNCHANGED <<buf, down>> ELSE pc' = "sort" /\ buf' = nxt /\ down' = ~down
        /\ UNCHANGED <<src, n, pos, nxt, out, ended>>
Next == Sort \/ Emit \/ Turn
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
DoneOk == pc = "done" => LaplaceBad(src, out, n) = {}
Term == <>(pc = "done")
\* laws of the stages used by the drivers
MergeDup == \A m \in {2, 3} : LET d == Stage(<<"dup", m>>, src) IN Len(d) = m * Len(src) /\ Len(Stage(<<"merge", m>>, d)) = Len(src)
=============================================================================
