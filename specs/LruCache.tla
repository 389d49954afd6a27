------------------------------ MODULE LruCache ------------------------------
(* The LRU memo cache: c = sequence of <<key, value>>, least recently used first.  *)
(* A call of the cached function is two steps, since the user function runs       *)
(* outside of the lock: lookup (call), and, on a miss, its return (ret).           *)
(* Result codes: -1 the given fallback, -2 KeyError.                               *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
LInit(cfg) == [c |-> <<>>, max |-> cfg.max, hits |-> 0, misses |-> 0, pend |-> {}]
Has(st, k) == \E i \in DOMAIN st.c : st.c[i][1] = k
Idx(st, k) == CHOOSE i \in DOMAIN st.c : st.c[i][1] = k
Val(st, k) == st.c[Idx(st, k)][2]
Without(st, k) == SelectSeq(st.c, LAMBDA x : x[1] # k)
Trim(s, m) == IF Len(s) > m THEN SubSeq(s, Len(s) - m + 1, Len(s)) ELSE s
Insert(st, k, v) == IF st.max = 0 \/ Has(st, k) THEN st ELSE [st EXCEPT !.c = Trim(Append(@, <<k, v>>), st.max)]
Touch(st, k) == [st EXCEPT !.c = Append(Without(st, k), <<k, Val(st, k)>>)]

LBad(st, cfg, e) ==
  CASE e.op = "call" ->
         If(Has(st, e.k) /\ ~e.hit, "cached-value-recomputed")
         \cup If(~Has(st, e.k) /\ e.hit, "hit-without-entry")
         \cup If(Has(st, e.k) /\ e.hit /\ e.v # Val(st, e.k), "wrong-cached-value")
    [] e.op = "ret" -> If(~(<<e.t, e.k>> \in st.pend), "DRIVER-ret") \cup If(e.r # e.v, "call-returns-other-than-function-result")
    [] e.op = "set" -> {}
    [] e.op = "peek" -> If(e.r # (IF Has(st, e.k) THEN Val(st, e.k) ELSE -1), "peek-wrong")
    [] e.op = "pop" -> If(e.r # (IF Has(st, e.k) THEN Val(st, e.k) ELSE IF e.fb THEN -1 ELSE -2), "pop-wrong")
    [] e.op = "popold" -> If(e.r # (IF st.c # <<>> THEN st.c[1][2] ELSE IF e.fb THEN -1 ELSE -2), "pop_oldest-not-the-least-recently-used")
    [] e.op = "len" -> If(e.r # Len(st.c), "len-wrong")
    [] e.op = "info" -> If(e.hits # st.hits \/ e.misses # st.misses, "statistics-wrong")
                        \cup If(e.max # st.max, "maxsize-wrong") \cup If(e.cur # Len(st.c), "len-wrong")
    [] e.op \in {"clear", "max"} -> {}
    [] OTHER -> {"DRIVER-op"}
LUpd(st, cfg, e) ==
  CASE e.op = "call" -> IF e.hit THEN [Touch(st, e.k) EXCEPT !.hits = @ + 1]
                        ELSE [st EXCEPT !.misses = @ + 1, !.pend = @ \cup {<<e.t, e.k>>}]
    [] e.op = "ret" -> [Insert(st, e.k, e.v) EXCEPT !.pend = @ \ {<<e.t, e.k>>}]
    [] e.op = "set" -> IF st.max = 0 THEN st ELSE Insert([st EXCEPT !.c = Without(st, e.k)], e.k, e.v)
    [] e.op = "peek" -> IF ~e.upd THEN st ELSE IF Has(st, e.k) THEN [st EXCEPT !.hits = @ + 1] ELSE [st EXCEPT !.misses = @ + 1]
    [] e.op = "pop" -> [st EXCEPT !.c = Without(st, e.k)]
    [] e.op = "popold" -> IF st.c = <<>> THEN st ELSE [st EXCEPT !.c = Tail(@)]
    [] e.op = "clear" -> [st EXCEPT !.c = <<>>, !.hits = 0, !.misses = 0]
    [] e.op = "max" -> [st EXCEPT !.max = e.n, !.c = Trim(@, e.n)]
    [] OTHER -> st
=============================================================================
