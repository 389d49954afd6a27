------------------------------ MODULE PosEncMC ------------------------------
(* The cache: dims with a scalar size are identified by that size, dims with    *)
(* sizes per batch entry by identity and by the identity of their sizes, the    *)
(* single-step dim (size 1) by identity.  Dims get freed and their address (id) *)
(* is used again, sizes are replaced in every step.  An entry goes away with    *)
(* what identifies it.  A hit always is what would be computed.                 *)
EXTENDS PosEnc
CONSTANTS Ids, Sizes, MaxVer, SingleStep
VARIABLES dims, ver, cache, last
vars == <<dims, ver, cache, last>>
Dead == [kind |-> "dead", n |-> 0, v |-> 0]
Init == dims = [i \in Ids |-> Dead] /\ ver = 1 /\ cache = {} /\ last = [hit |-> {}, want |-> 0]
New == \E i \in Ids, n \in Sizes, k \in {"scalar", "batched"} :
         /\ dims[i].kind = "dead" /\ ver < MaxVer
         /\ dims' = [dims EXCEPT ![i] = [kind |-> k, n |-> n, v |-> ver]] /\ ver' = ver + 1 /\ UNCHANGED <<cache, last>>
\* the finalizer removes the entries identified by the dim or its sizes
Drop(i) == {c \in cache : ~(c.key[1] = "id" /\ c.key[2] = i)}
Free == \E i \in Ids : dims[i].kind # "dead" /\ dims' = [dims EXCEPT ![i] = Dead] /\ cache' = Drop(i) /\ UNCHANGED <<ver, last>>
Resize == \E i \in Ids, n \in Sizes : /\ dims[i].kind # "dead" /\ ver < MaxVer /\ dims' = [dims EXCEPT ![i].n = n, ![i].v = ver] /\ ver' = ver + 1
                                      /\ cache' = (IF dims[i].kind = "batched" THEN Drop(i) ELSE cache) /\ UNCHANGED last
Key(i) == IF i = SingleStep THEN <<"special", 0, 0>> ELSE IF dims[i].kind = "scalar" THEN <<"val", dims[i].n, 0>> ELSE <<"id", i, dims[i].v>>
Val(i) == IF i = SingleStep THEN SinPos(1, TRUE, <<>>) ELSE SinPos(dims[i].n, FALSE, <<>>)
Call == \E i \in {j \in Ids : dims[j].kind # "dead"} \cup {SingleStep} :
          LET hit == {c \in cache : c.key = Key(i)}
          IN /\ last' = [hit |-> {c.val : c \in hit}, want |-> Val(i)]
             /\ cache' = IF hit = {} THEN cache \cup {[key |-> Key(i), val |-> Val(i)]} ELSE cache
             /\ UNCHANGED <<dims, ver>>
Next == New \/ Free \/ Resize \/ Call
Spec == Init /\ [][Next]_vars
Transparent == last.hit \subseteq {last.want}
=============================================================================
