----------------------------- MODULE TextVocab ------------------------------
(***************************************************************************)
(* Text vocabularies: how a sentence becomes a sequence of label ids, and  *)
(* back.  Characters are numbers (code points), EOW = 0 marks the end of a *)
(* word inside of the byte-pair merges.  A token is a sequence of chars.   *)
(*                                                                         *)
(* cfg.labels[i+1] = [t |-> token, m |-> BOOLEAN, p |-> BOOLEAN]: label i; *)
(*    m: has the merge postfix ("@@"), p: has the word prefix symbol       *)
(* cfg.unk       id of the unknown label, -1: none                         *)
(* cfg.post      ids which are appended to every sequence                  *)
(* cfg.codes     byte-pair merges <<a, b>> in order of priority            *)
(* cfg.ver       1: the end of word is an own symbol; 2: part of the last  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

EOW == 0
RECURSIVE Flat(_)
Flat(w) == IF w = <<>> THEN <<>> ELSE Head(w) \o Flat(Tail(w))
Map(F(_), s) == [i \in DOMAIN s |-> F(s[i])]
IfB(c, n) == IF c THEN {n} ELSE {}
Last(s) == s[Len(s)]
Front(s) == SubSeq(s, 1, Len(s) - 1)
Min(S) == CHOOSE x \in S : \A y \in S : x <= y

---------------------------------------------------------------------------
(* Byte-pair encoding as a rewriting system *)
Rank(codes, a, b) == LET S == {i \in DOMAIN codes : codes[i][1] = a /\ codes[i][2] = b} IN IF S = {} THEN Len(codes) + 1 ELSE Min(S)
RECURSIVE MergeAll(_, _, _)
MergeAll(w, a, b) ==      \* all occurrences, from left to right
  IF Len(w) < 2 THEN w
  ELSE IF w[1] = a /\ w[2] = b THEN <<a \o b>> \o MergeAll(SubSeq(w, 3, Len(w)), a, b)
  ELSE <<w[1]>> \o MergeAll(Tail(w), a, b)
BestRank(codes, w) == IF Len(w) < 2 THEN Len(codes) + 1 ELSE Min({Rank(codes, w[i], w[i + 1]) : i \in 1 .. Len(w) - 1})
RECURSIVE Rewrite(_, _)
Rewrite(codes, w) ==
  LET r == BestRank(codes, w) IN
  IF r > Len(codes) THEN w ELSE Rewrite(codes, MergeAll(w, codes[r][1], codes[r][2]))
Start(ver, chars) == IF ver = 1 THEN Map(LAMBDA c : <<c>>, chars) \o <<<<EOW>>>>
                     ELSE Map(LAMBDA c : <<c>>, Front(chars)) \o <<<<Last(chars), EOW>>>>
StripEow(w) == IF Last(w) = <<EOW>> THEN Front(w)
               ELSE IF Last(Last(w)) = EOW THEN Front(w) \o <<Front(Last(w))>> ELSE w

(* The id of a unit (token, and whether the word goes on), -1: not in the vocabulary *)
IdOf(cfg, t, m, p) == LET S == {i \in DOMAIN cfg.labels : cfg.labels[i].t = t /\ cfg.labels[i].m = m /\ cfg.labels[i].p = p}
                      IN IF S = {} THEN -1 ELSE Min(S) - 1
InVoc(cfg, t, m) == IdOf(cfg, t, m, FALSE) >= 0
(* Units which are not in the vocabulary are split by undoing merges *)
RECURSIVE Undo(_, _, _)
Undo(cfg, t, final) ==
  LET full == IF final THEN t \o <<EOW>> ELSE t
      S == {i \in DOMAIN cfg.codes : cfg.codes[i][1] \o cfg.codes[i][2] = full}
  IN IF S = {} THEN <<t>>
     ELSE LET c == cfg.codes[Min(S)]
              l == c[1]
              r == IF final THEN Front(c[2]) ELSE c[2]
          IN (IF InVoc(cfg, l, TRUE) THEN <<l>> ELSE Undo(cfg, l, FALSE))
             \o (IF InVoc(cfg, r, ~final) THEN <<r>> ELSE Undo(cfg, r, final))
VocSplit(cfg, w) ==
  Flat([i \in DOMAIN w |-> IF InVoc(cfg, w[i], i < Len(w)) THEN <<w[i]>> ELSE Undo(cfg, w[i], i = Len(w))])
BpeUnits(cfg, chars) == VocSplit(cfg, StripEow(Rewrite(cfg.codes, Start(cfg.ver, chars))))
OrUnk(cfg, i) == IF i >= 0 THEN i ELSE cfg.unk
BpeIds(cfg, chars) == LET u == BpeUnits(cfg, chars) IN [i \in DOMAIN u |-> OrUnk(cfg, IdOf(cfg, u[i], i < Len(u), FALSE))]

---------------------------------------------------------------------------
(* All segmentations of a word into labels: first / continued units *)
Unit(cfg, first, last) ==     \* labels which may stand at this place of a word
  {i \in DOMAIN cfg.labels : /\ cfg.labels[i].m = (cfg.style = "postfix" /\ ~last)
                             /\ cfg.labels[i].p = (cfg.style = "prefix" /\ first)}
IsPrefix(t, s) == Len(t) <= Len(s) /\ SubSeq(s, 1, Len(t)) = t
RECURSIVE Segs(_, _, _)
Segs(cfg, rest, first) ==
  LET lastU == {i \in Unit(cfg, first, TRUE) : cfg.labels[i].t = rest}
      midU == {i \in Unit(cfg, first, FALSE) : IsPrefix(cfg.labels[i].t, rest) /\ Len(cfg.labels[i].t) < Len(rest)
                                               /\ (cfg.labels[i].t # <<>> \/ (first /\ cfg.style = "prefix"))}
  IN {<<i - 1>> : i \in lastU}
     \cup UNION {{<<i - 1>> \o s : s \in Segs(cfg, SubSeq(rest, Len(cfg.labels[i].t) + 1, Len(rest)), FALSE)} : i \in midU}
(* Depth first: always the longest unit which leads to a segmentation *)
UnitLens(cfg, seg) == [i \in DOMAIN seg |-> Len(cfg.labels[seg[i] + 1].t)]
RECURSIVE LexGeq(_, _)
LexGeq(a, b) == a = <<>> \/ b = <<>> \/ Head(a) > Head(b) \/ (Head(a) = Head(b) /\ LexGeq(Tail(a), Tail(b)))
Greedy(cfg, S) == CHOOSE s \in S : \A s2 \in S : LexGeq(UnitLens(cfg, s), UnitLens(cfg, s2))
GreedyIds(cfg, chars) == LET S == Segs(cfg, chars, TRUE) IN IF S = {} THEN <<cfg.unk>> ELSE Greedy(cfg, S)

---------------------------------------------------------------------------
(* Plain words, characters, bytes *)
WordIds(cfg, ws) == [i \in DOMAIN ws |-> OrUnk(cfg, IdOf(cfg, ws[i], FALSE, FALSE))]
CharIds(cfg, cs) == [i \in DOMAIN cs |-> OrUnk(cfg, IdOf(cfg, <<cs[i]>>, FALSE, FALSE))]
Lo(c, k) == 128 + ((c \div k) % 64)
Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), Lo(c, 1)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), Lo(c, 64), Lo(c, 1)>>
  ELSE <<240 + (c \div 262144), Lo(c, 4096), Lo(c, 64), Lo(c, 1)>>
Utf8Ids(cs) == Flat(Map(Utf8, cs))

Known(ids) == \A i \in DOMAIN ids : ids[i] >= 0

---------------------------------------------------------------------------
(* Text corpora.  A line is [w |-> its words, c |-> its characters (stripped)] *)
Enc(cfg, enc, ln) ==
  (CASE enc = "words" -> WordIds(cfg, ln.w)
     [] enc = "bpe" -> Flat(Map(LAMBDA w : BpeIds(cfg, w), ln.w))
     [] enc = "greedy" -> Flat(Map(LAMBDA w : GreedyIds(cfg, w), ln.w))
     [] enc = "chars" -> CharIds(cfg, ln.c)
     [] enc = "utf8" -> Utf8Ids(ln.c)) \o cfg.post
(* Orthography symbols: words, or characters with the words separated by one space *)
RECURSIVE JoinW(_)
JoinW(ws) == IF ws = <<>> THEN <<>> ELSE IF Len(ws) = 1 THEN ws[1] ELSE ws[1] \o <<32>> \o JoinW(Tail(ws))
RECURSIVE Collapse(_, _)
Collapse(s, sp) == IF Len(s) < 2 THEN s
                   ELSE IF s[1] = sp /\ s[2] = sp THEN Collapse(Tail(s), sp) ELSE <<s[1]>> \o Collapse(Tail(s), sp)
OrthIds(cfg, o, ln) ==   \* o.wend: id of the word-end symbol or -1; o.auto: unknown symbols become cfg.unk, or vanish
  LET syms == IF o.word THEN ln.w ELSE Map(LAMBDA c : <<c>>, JoinW(ln.w))
      id(t) == IF t = <<32>> /\ o.wend >= 0 THEN o.wend ELSE IdOf(cfg, t, FALSE, FALSE)
      ids == Map(id, syms) \o cfg.post
      rep == IF ~o.auto THEN ids
             ELSE IF cfg.unk >= 0 THEN Map(LAMBDA i : OrUnk(cfg, i), ids)
             ELSE SelectSeq(ids, LAMBDA i : i >= 0)
      sp == IF o.word THEN -2 ELSE IF o.wend >= 0 THEN o.wend ELSE IdOf(cfg, <<32>>, FALSE, FALSE)
  IN IF sp < 0 THEN rep ELSE Collapse(rep, sp)
Numbered(ls) == [i \in DOMAIN ls |-> [n |-> i - 1, w |-> ls[i].w, c |-> ls[i].c]]
Tag(tags, n) == IF tags = <<>> THEN "line-" \o ToString(n) ELSE tags[n + 1]
Kept(e) == SelectSeq(e.lines, LAMBDA ln : e.keep \/ ln.w # <<>>)
Ordered(e) == LET k == Numbered(Kept(e)) IN IF e.order = <<>> THEN k ELSE [i \in DOMAIN e.order |-> k[e.order[i] + 1]]
PWords(voc, unk, ws) == [i \in DOMAIN ws |-> LET S == {j \in DOMAIN voc : voc[j] = ws[i]} IN IF S = {} THEN unk ELSE Min(S) - 1]

VInit(cfg) == [n |-> 0]
VBad(st, cfg, e) ==
  CASE e.op = "exc" -> {"exception"}
    [] e.op = "labels" ->   \* the label table as given back: labels, ids, validity, special symbols
         IfB(e.n # Len(cfg.tab) \/ e.tab # cfg.tab, "label-table-differs")
         \cup IfB(e.ids # [i \in DOMAIN cfg.tab |-> i - 1], "wrong-id-of-label")
         \cup IfB(\E i \in DOMAIN e.valid : e.valid[i][2] # (e.valid[i][1] \in 0 .. Len(cfg.tab) - 1), "wrong-validity-of-id")
         \cup IfB(\E i \in DOMAIN cfg.kw : e.sp[i] # (IF cfg.kw[i] >= 0 THEN cfg.kw[i] ELSE cfg.fl[i]), "wrong-special-symbol")
         \cup IfB(e.dflt # -7, "default-for-invalid-label-ignored")
    [] e.op = "enc" ->      \* a sentence
         IfB(e.ids # Enc(cfg, e.enc, e.ln), "wrong-label-ids")
    [] e.op = "sample" ->   \* one word
         LET S == Segs(cfg, e.w, TRUE) IN
         IF S = {} THEN IfB(e.ids # <<cfg.unk>> \o cfg.post, "segmentation-of-impossible-word")
         ELSE IfB(e.ids \notin {s \o cfg.post : s \in S}, "not-a-segmentation-of-the-word")
    [] e.op = "all" ->
         IfB({e.segs[i] : i \in DOMAIN e.segs} # Segs(cfg, e.w, TRUE) \/ Cardinality({e.segs[i] : i \in DOMAIN e.segs}) # Len(e.segs), "not-all-segmentations")
    [] e.op = "refused" ->  \* an error for this sentence: only when a unit is unknown, and there is no unknown label
         IfB(cfg.unk >= 0 \/ Known(Enc(cfg, e.enc, e.ln)), "refused-known-words")
    [] e.op = "text" -> IfB(e.cs # e.back, "text-changed-by-encoding-and-decoding")
    [] e.op = "same" -> IfB(e.a # e.b, "not-reproducible")
    [] e.op = "corpus" ->   \* the sequences of a text dataset
         LET ls == Ordered(e)
             enc(ln) == IF e.enc = "orth" THEN OrthIds(cfg, e.orth, ln) ELSE Enc(cfg, e.enc, ln)
             good == SelectSeq(ls, LAMBDA ln : e.enc # "orth" \/ Known(OrthIds(cfg, e.orth, ln)))
             want == [i \in DOMAIN good |-> [tag |-> Tag(e.tags, good[i].n), ids |-> enc(good[i])]]
         IN IfB(Len(e.out) # Len(want), "sentences-lost-or-added")
            \cup IfB(Len(e.out) = Len(want) /\ \E i \in DOMAIN want : e.out[i].tag # want[i].tag, "wrong-sequence-tag")
            \cup IfB(Len(e.out) = Len(want) /\ \E i \in DOMAIN want : e.out[i].ids # want[i].ids, "wrong-label-ids")
            \cup IfB(e.start >= 0 /\ Len(e.out) = Len(want) /\ \E i \in DOMAIN want : e.out[i].del # <<e.start>> \o Front(want[i].ids), "delayed-not-shifted")
            \cup IfB(e.total # Len(Kept(e)), "wrong-number-of-sequences")
            \cup IfB(e.alltags # [i \in 1 .. Len(Kept(e)) |-> Tag(e.tags, i - 1)], "wrong-list-of-tags")
    [] e.op = "trans" ->    \* parallel corpus: one stream per key
         LET ord == IF e.order = <<>> THEN [i \in 1 .. e.nlines |-> i - 1] ELSE e.order
             seq(k, n) == PWords(e.voc[k], e.unk[k], e.lines[k][n + 1] \o e.post[k])
         IN IfB(Len(e.out) # Len(ord), "sentences-lost-or-added")
            \cup IfB(Len(e.out) = Len(ord) /\ \E i \in DOMAIN ord : e.out[i].tag # Tag(<<>>, ord[i]), "wrong-sequence-tag")
            \cup IfB(Len(e.out) = Len(ord) /\ \E i \in DOMAIN ord : \E k \in DOMAIN e.voc : e.out[i].ids[k] # seq(k, ord[i]), "wrong-label-ids")
            \cup IfB(\E k \in DOMAIN e.voc : e.dims[k] # Len(e.voc[k]), "wrong-number-of-labels")
            \cup IfB(e.alltags # [i \in 1 .. e.nlines |-> Tag(<<>>, i - 1)], "wrong-list-of-tags")
    [] OTHER -> {"DRIVER-op"}
VUpd(st, cfg, e) == st
=============================================================================
