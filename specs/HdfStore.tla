------------------------------ MODULE HdfStore ------------------------------
(***************************************************************************)
(* Data stored in HDF files and read back.                                 *)
(* A file is a sequence of records; a record has a tag and a set of        *)
(* streams <<key, shape, values>> (values row-major).  A writer fills a    *)
(* private buffer from padded batches; only close publishes it, as a       *)
(* whole.  A crash leaves every destination either as before or complete.  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))

(* row-major values of the sub-box lens (first axes) of an array of the given shape *)
RECURSIVE Box(_, _, _, _)
Box(raw, shape, lens, off) ==
  IF lens = <<>> THEN SubSeq(raw, off + 1, off + Prod(shape))
  ELSE LET inner == Prod(Tail(shape))
           F[i \in 0..Head(lens)] == IF i = 0 THEN <<>> ELSE F[i - 1] \o Box(raw, Tail(shape), Tail(lens), off + (i - 1) * inner)
       IN F[Head(lens)]

(* the record of one sequence of a padded batch *)
Feat(shape, nl) == SubSeq(shape, nl + 1, Len(shape))
RecOf(shape, s) ==
  LET nl == Len(s.lens)
      data == <<"data", <<Prod(s.lens)>> \o Feat(shape, nl), Box(s.raw, shape, s.lens, 0)>>
      sizes == IF nl > 1 THEN {<<"sizes", <<nl>>, s.lens>>} ELSE {}
      ex == {LET x == s.extra[i] IN <<x.k, IF x.shape = <<>> THEN <<1>> ELSE x.shape, x.raw>> : i \in 1..Len(s.extra)}
  IN [tag |-> s.tag, str |-> {data} \cup sizes \cup ex]

KeysOf(recs) == UNION {{x[1] : x \in recs[i].str} : i \in 1..Len(recs)}
(* streams a record did not get have no frames *)
Rest(recs, k) == LET i == CHOOSE i \in 1..Len(recs) : \E x \in recs[i].str : x[1] = k
                 IN Tail((CHOOSE x \in recs[i].str : x[1] = k)[2])
Complete(recs) ==
  [i \in 1..Len(recs) |->
     [tag |-> recs[i].tag,
      str |-> recs[i].str \cup {<<k, <<0>> \o Rest(recs, k), <<>>>> : k \in KeysOf(recs) \ {x[1] : x \in recs[i].str}}]]

Lookup(f, k, dflt) == IF k \in DOMAIN f THEN f[k] ELSE dflt
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Absent == <<>>

(* state: files (file -> set of possible contents: one, or two after a crash during close), buf, cur, labels *)
HInit(cfg) == [files |-> <<>>, buf |-> <<>>, cur |-> "", ext |-> FALSE, lab |-> <<>>, dt |-> <<>>]
Poss(st, f) == Lookup(st.files, f, {Absent})
RECURSIVE Concats(_, _)
Concats(st, fs) == IF fs = <<>> THEN {<<>>} ELSE {a \o b : a \in Poss(st, Head(fs)), b \in Concats(st, Tail(fs))}

Obs(recs) == [i \in 1..Len(recs) |-> [tag |-> recs[i].tag, str |-> {<<recs[i].d[j][1], recs[i].d[j][2], recs[i].d[j][3]>> : j \in 1..Len(recs[i].d)}]]

(* names of the clauses violated by an observation *)
ReadBad(cands, obs) ==
  IF \E c \in cands : obs = Complete(c) THEN {} ELSE
  LET ok == {Complete(c) : c \in cands}
  IN IF \A c \in ok : Len(obs) # Len(c) THEN {"NumSeqs"}
     ELSE LET c == CHOOSE c \in ok : Len(obs) = Len(c)
          IN (IF \E i \in 1..Len(c) : obs[i].tag # c[i].tag THEN {"Tags"} ELSE {})
             \cup (IF \E i \in 1..Len(c) : {x[1] : x \in obs[i].str} # {x[1] : x \in c[i].str} THEN {"Keys"}
                   ELSE IF \E i \in 1..Len(c) : {<<x[1], x[2]>> : x \in obs[i].str} # {<<x[1], x[2]>> : x \in c[i].str} THEN {"Lengths"}
                   ELSE IF \E i \in 1..Len(c) : obs[i].str # c[i].str THEN {"Content"} ELSE {})

HBad(st, cfg, e) ==
  CASE e.op = "read" -> ReadBad(Concats(st, e.fs), Obs(e.recs))
    [] e.op = "exists" -> IF e.v = (\A c \in Poss(st, e.f) : c # Absent) \/ e.v = (\E c \in Poss(st, e.f) : c # Absent) THEN {} ELSE {"PublishedOnlyWhenComplete"}
    [] e.op = "dtypes" -> IF \E i \in 1..Len(e.v) : e.v[i][1] \in DOMAIN st.dt /\ st.dt[e.v[i][1]] # e.v[i][2] THEN {"DTypes"} ELSE {}
    [] e.op = "labels" -> IF \E i \in 1..Len(e.v) : <<e.f, e.v[i][1]>> \in DOMAIN st.lab /\ st.lab[<<e.f, e.v[i][1]>>] # e.v[i][2] THEN {"Labels"} ELSE {}
    [] e.op \in {"open", "insert", "close", "crash", "dump"} -> {}
    [] OTHER -> {e.op}

PutAll(f, ps, pre) == LET D == {ps[i][1] : i \in 1..Len(ps)}
                           V(k) == ps[CHOOSE i \in 1..Len(ps) : ps[i][1] = k][2]
                       IN IF pre = "" THEN [x \in DOMAIN f \cup D |-> IF x \in D THEN V(x) ELSE f[x]]
                          ELSE [x \in DOMAIN f \cup {<<pre, k>> : k \in D} |-> IF x[1] = pre /\ x[2] \in D THEN V(x[2]) ELSE f[x]]
HUpd(st, cfg, e) ==
  CASE e.op = "open" -> [st EXCEPT !.cur = e.f, !.ext = e.ext, !.buf = IF e.ext THEN CHOOSE c \in Poss(st, e.f) : TRUE ELSE <<>>,
                                   !.lab = PutAll(st.lab, e.lab, e.f), !.dt = PutAll(st.dt, e.dt, "")]
    [] e.op = "insert" -> [st EXCEPT !.buf = @ \o [i \in 1..Len(e.seqs) |-> RecOf(e.shape, e.seqs[i])]]
    [] e.op = "close" -> [st EXCEPT !.files = Put(st.files, st.cur, {st.buf})]
    [] e.op = "crash" -> [st EXCEPT !.files = Put(st.files, st.cur, IF e.inclose THEN Poss(st, st.cur) \cup {st.buf} ELSE Poss(st, st.cur))]
    [] e.op = "exists" -> [st EXCEPT !.files = Put(st.files, e.f, {c \in Poss(st, e.f) : (c # Absent) = e.v})]
    [] e.op = "read" -> IF Len(e.fs) = 1 THEN [st EXCEPT !.files = Put(st.files, e.fs[1], {c \in Poss(st, e.fs[1]) : Complete(c) = Obs(e.recs)})] ELSE st
    [] e.op = "dump" -> [st EXCEPT !.files = Put(st.files, e.f, {SubSeq(Obs(e.recs), e.start + 1, e.end)}), !.lab = PutAll(st.lab, e.lab, e.f), !.dt = PutAll(st.dt, e.dt, "")]
    [] OTHER -> st
=============================================================================
