------------------------------ MODULE Postproc ------------------------------
(***************************************************************************)
(* Post-processing of a sequence stream.  A stream is a sequence of items  *)
(* [tag, v (frames), f (complete fraction, -1: unknown)].  A pipeline is a *)
(* sequence of stages; its meaning is defined here as a function on        *)
(* streams, except for laplace which is a relation (any order among equal  *)
(* lengths).                                                               *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
Range(s) == {s[i] : i \in DOMAIN s}
Count(x, s) == Cardinality({i \in DOMAIN s : s[i] = x})
SameBag(a, b) == Len(a) = Len(b) /\ \A x \in Range(a) \cup Range(b) : Count(x, a) = Count(x, b)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Flat(Tail(ss))
MapV(F(_), it) == [it EXCEPT !.v = [t \in DOMAIN it.v |-> F(it.v[t])]]
\* one stage
Stage(s, st) ==
  CASE s[1] = "id" -> st
    [] s[1] = "add" -> [i \in DOMAIN st |-> MapV(LAMBDA x : x + s[2], st[i])]
    [] s[1] = "dbl" -> [i \in DOMAIN st |-> [st[i] EXCEPT !.v = @ \o @]]
    [] s[1] = "head" -> [i \in DOMAIN st |-> [st[i] EXCEPT !.v = SubSeq(@, 1, IF s[2] < Len(@) THEN s[2] ELSE Len(@))]]
    [] s[1] = "retag" -> [i \in DOMAIN st |-> [st[i] EXCEPT !.tag = "t-" \o @]]
    [] s[1] = "idx" -> [i \in DOMAIN st |-> MapV(LAMBDA x : x + 1000 * (i - 1), st[i])]    \* sees its seq_idx
    [] s[1] = "filter" -> SelectSeq(st, LAMBDA it : Len(it.v) % s[2] # 0)
    [] s[1] = "dup" -> Flat([i \in DOMAIN st |-> [j \in 1..s[2] |-> st[i]]])
    [] s[1] = "merge" -> [i \in 1..((Len(st) + s[2] - 1) \div s[2]) |->
           LET lo == (i - 1) * s[2] + 1
               hi == IF i * s[2] < Len(st) THEN i * s[2] ELSE Len(st)
           IN [tag |-> st[lo].tag, f |-> st[hi].f, v |-> Flat([j \in 1..(hi - lo + 1) |-> st[lo + j - 1].v])]]
RECURSIVE Pipe(_, _)
Pipe(ss, st) == IF ss = <<>> THEN st ELSE Pipe(Tail(ss), Stage(Head(ss), st))
\* laplace with bins of n: relation between input and output stream; fractions stay in place
Bin(st, n, b) == SubSeq(st, (b - 1) * n + 1, IF b * n < Len(st) THEN b * n ELSE Len(st))
NoF(st) == [i \in DOMAIN st |-> [tag |-> st[i].tag, v |-> st[i].v]]
LaplaceBad(in, out, n) ==
  If(Len(in) # Len(out) \/ ~SameBag(NoF(in), NoF(out)), "sequences-lost-or-invented")
  \cup If(Len(in) = Len(out) /\ \E i \in DOMAIN in : in[i].f # out[i].f, "fraction-reordered")
  \cup If(Len(in) = Len(out) /\ \E b \in 1..((Len(in) + n - 1) \div n) :
            \/ ~SameBag(NoF(Bin(in, n, b)), NoF(Bin(out, n, b)))
            \/ \E i \in 1..(Len(Bin(out, n, b)) - 1) :
                 LET x == Len(Bin(out, n, b)[i].v)
                     y == Len(Bin(out, n, b)[i + 1].v)
                 IN IF b % 2 = 1 THEN x > y ELSE x < y, "not-laplace-order")
SeqBad(exp, out) == If(Len(exp) # Len(out), "sequences-lost-or-invented")
  \cup If(Len(exp) = Len(out) /\ \E i \in DOMAIN exp : exp[i].tag # out[i].tag, "wrong-tag")
  \cup If(Len(exp) = Len(out) /\ \E i \in DOMAIN exp : exp[i].v # out[i].v, "wrong-data")
  \cup If(Len(exp) = Len(out) /\ \E i \in DOMAIN exp : exp[i].f # out[i].f, "wrong-fraction")
\* cfg.stages, cfg.laplace (0: none), cfg.inner[e] the source stream of epoch e; cfg.rng: data stages use random numbers
PInit(cfg) == [memo |-> <<>>]
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
PBad(st, cfg, e) ==
  CASE e.op = "epoch" ->   \* a complete epoch
         LET exp == Pipe(cfg.stages, cfg.inner[e.e])
         IN (IF cfg.laplace > 0 THEN LaplaceBad(exp, e.items, cfg.laplace)
             ELSE IF cfg.rng THEN {x \in SeqBad(exp, e.items) : x # "wrong-data"} \cup If(\E i \in DOMAIN e.items : i \in DOMAIN exp /\ Len(e.items[i].v) # Len(exp[i].v), "wrong-data")
             ELSE SeqBad(exp, e.items))
            \cup If(e.e \in DOMAIN st.memo /\ st.memo[e.e] # e.items, "not-reproducible")
            \cup If(e.nseqs >= 0 /\ e.nseqs # Len(e.items), "num_seqs-wrong")
            \cup If(cfg.sized /\ e.nseqs < 0, "num_seqs-unknown")
    [] e.op = "part" ->    \* the beginning of an epoch, then abandoned
         If(e.e \in DOMAIN st.memo /\ ~Prefix(e.items, st.memo[e.e]), "not-reproducible")
    [] e.op = "skip" ->    \* only some positions are read, the ones between skipped
         If(e.e \in DOMAIN st.memo /\ \E i \in DOMAIN e.items : e.at[i] + 1 \notin DOMAIN st.memo[e.e] \/ st.memo[e.e][e.at[i] + 1] # e.items[i], "wrong-sequence-after-skipping")
    [] OTHER -> {e.op}
PUpd(st, cfg, e) == IF e.op = "epoch" THEN [memo |-> [x \in DOMAIN st.memo \cup {e.e} |-> IF x = e.e THEN e.items ELSE st.memo[x]]] ELSE st
=============================================================================
