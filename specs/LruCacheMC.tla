----------------------------- MODULE LruCacheMC -----------------------------
(* All histories of cache operations with up to two concurrent calls of the       *)
(* cached function; recency is re-derived from a ghost clock (use).               *)
EXTENDS LruCache, Json
CONSTANTS Keys, Maxes, Threads, HistLen, EmitHist
VARIABLES st, h, use, val
vars == <<st, h, use, val>>
Init == /\ \E m \in Maxes : st = LInit([max |-> m])
        /\ h = <<>> /\ use = [k \in Keys |-> 0] /\ val = 0
Idle == Threads \ {p[1] : p \in st.pend}
\* each step: the event as the specification says the code must answer it
Do(e, op, u) ==
  /\ Len(h) < HistLen /\ LBad(st, [max |-> 0], e) = {}
  /\ st' = LUpd(st, [max |-> 0], e)
  /\ h' = Append(h, op)
  /\ use' = [k \in Keys |-> IF k \in u THEN Len(h) + 1 ELSE use[k]]
Call == \E t \in Idle, k \in Keys :
  /\ Do([op |-> "call", t |-> t, k |-> k, hit |-> Has(st, k), v |-> IF Has(st, k) THEN Val(st, k) ELSE 0], <<"call", t, k>>, {k}) /\ UNCHANGED val
Ret == \E p \in st.pend :
  /\ Do([op |-> "ret", t |-> p[1], k |-> p[2], v |-> val, r |-> val], <<"ret", p[1], p[2]>>, IF Has(st, p[2]) THEN {} ELSE {p[2]}) /\ val' = val + 1
Set == \E k \in Keys : Do([op |-> "set", k |-> k, v |-> val], <<"set", 0, k>>, {k}) /\ val' = val + 1
Peek == \E k \in Keys, u \in BOOLEAN : Do([op |-> "peek", k |-> k, upd |-> u, r |-> IF Has(st, k) THEN Val(st, k) ELSE -1], <<"peek", IF u THEN 1 ELSE 0, k>>, {}) /\ UNCHANGED val
Pop == \E k \in Keys, f \in BOOLEAN : Do([op |-> "pop", k |-> k, fb |-> f, r |-> IF Has(st, k) THEN Val(st, k) ELSE IF f THEN -1 ELSE -2], <<"pop", IF f THEN 1 ELSE 0, k>>, {}) /\ UNCHANGED val
PopOld == Do([op |-> "popold", fb |-> TRUE, r |-> IF st.c = <<>> THEN -1 ELSE st.c[1][2]], <<"popold", 1, 0>>, {}) /\ UNCHANGED val
Clear == Do([op |-> "clear"], <<"clear", 0, 0>>, {}) /\ UNCHANGED val
SetMax == \E m \in Maxes : Do([op |-> "max", n |-> m], <<"max", m, 0>>, {}) /\ UNCHANGED val
Next == Call \/ Ret \/ Set \/ Peek \/ Pop \/ PopOld \/ Clear \/ SetMax
Spec == Init /\ [][Next]_vars
\* design properties
Bounded == Len(st.c) <= st.max
NoDup == \A i, j \in DOMAIN st.c : st.c[i][1] = st.c[j][1] => i = j
RecencyOrder == \A i, j \in DOMAIN st.c : i < j => use[st.c[i][1]] < use[st.c[j][1]]
ValuesFresh == \A i, j \in DOMAIN st.c : st.c[i][2] = st.c[j][2] => i = j
View == <<st, use, Len(h), val>>
Emit == (EmitHist /\ Len(h) = HistLen) => PrintT(ToJson([k |-> "BEH", h |-> h]))
=============================================================================
