---------------------------- MODULE TextVocabMC -----------------------------
(* "bpe": one merge after the other, scanning from left to right, as an implementation does; *)
(* "dfs": search with a stack of partial segmentations, longest unit first, with backtracking *)
EXTENDS TextVocab
CONSTANTS K, MaxW, NCodes, Ver
VARIABLES mode, chars, codes, w, cur, pos, voc, stack, found
vars == <<mode, chars, codes, w, cur, pos, voc, stack, found>>
SeqsUpTo(S, n) == UNION {[1 .. m -> S] : m \in 1 .. n}
Words == SeqsUpTo(1 .. K, MaxW)
Mid == SeqsUpTo(1 .. K, 2)
Fin == IF Ver = 1 THEN {<<EOW>>} \cup {t \o <<EOW>> : t \in SeqsUpTo(1 .. K, 1)} ELSE {t \o <<EOW>> : t \in SeqsUpTo(1 .. K, 2)}
Codes == [1 .. NCodes -> SeqsUpTo(1 .. K, 1) \X (SeqsUpTo(1 .. K, 1) \cup Fin) \cup ({<<1, 1>>, <<1, 2>>} \X (SeqsUpTo(1 .. K, 1) \cup Fin))]
Cfg == [labels |-> voc, unk |-> -1, post |-> <<>>, codes |-> codes, ver |-> Ver, style |-> "postfix"]
Lab(t, m) == [t |-> t, m |-> m, p |-> FALSE]
Units == <<Lab(<<1>>, TRUE), Lab(<<1>>, FALSE), Lab(<<1, 2>>, TRUE), Lab(<<1, 2>>, FALSE), Lab(<<2>>, TRUE), Lab(<<2>>, FALSE), Lab(<<2, 1>>, TRUE), Lab(<<1, 2, 1>>, FALSE)>>
RECURSIVE Pick(_, _)
Pick(s, S) == IF s = <<>> THEN <<>> ELSE LET r == Pick(Front(s), S) IN IF Len(s) \in S THEN Append(r, Last(s)) ELSE r
Init == \/ /\ mode = "bpe" /\ chars \in Words /\ codes \in Codes /\ w = Start(Ver, chars) /\ cur = 0 /\ pos = 1
           /\ voc = <<>> /\ stack = <<>> /\ found = <<>>
        \/ /\ mode = "dfs" /\ chars \in Words /\ codes = <<>> /\ w = <<>> /\ cur = 0 /\ pos = 0
           /\ voc \in {Pick(Units, S) : S \in SUBSET DOMAIN Units} /\ stack = <<<<0, <<>>>>>> /\ found = <<>>
(* bpe *)
Choose == /\ mode = "bpe" /\ cur = 0 /\ BestRank(codes, w) <= NCodes
          /\ cur' = BestRank(codes, w) /\ pos' = 1 /\ UNCHANGED <<mode, chars, codes, w, voc, stack, found>>
Scan == /\ mode = "bpe" /\ cur > 0
        /\ IF pos >= Len(w) THEN cur' = 0 /\ UNCHANGED <<w, pos>>
           ELSE /\ UNCHANGED cur /\ pos' = pos + 1
                /\ w' = IF w[pos] = codes[cur][1] /\ w[pos + 1] = codes[cur][2]
                        THEN SubSeq(w, 1, pos - 1) \o <<w[pos] \o w[pos + 1]>> \o SubSeq(w, pos + 2, Len(w)) ELSE w
        /\ UNCHANGED <<mode, chars, codes, voc, stack, found>>
(* dfs: an entry is <<chars consumed, ids>> *)
Ext(e) == {i \in DOMAIN voc : LET rest == SubSeq(chars, e[1] + 1, Len(chars)) IN
             /\ IsPrefix(voc[i].t, rest) /\ voc[i].m = (Len(voc[i].t) < Len(rest))}
RECURSIVE ByLen(_)
ByLen(S) == IF S = {} THEN <<>> ELSE LET i == CHOOSE i \in S : \A j \in S : Len(voc[i].t) <= Len(voc[j].t) IN <<i>> \o ByLen(S \ {i})
Expand == /\ mode = "dfs" /\ stack # <<>> /\ found = <<>>
          /\ LET e == Last(stack) IN
             IF e[1] = Len(chars) THEN found' = e[2] /\ UNCHANGED stack
             ELSE /\ UNCHANGED found
                  /\ stack' = Front(stack) \o Map(LAMBDA i : <<e[1] + Len(voc[i].t), Append(e[2], i - 1)>>, ByLen(Ext(e)))
          /\ UNCHANGED <<mode, chars, codes, w, cur, pos, voc>>
Next == Choose \/ Scan \/ Expand
Spec == Init /\ [][Next]_vars
BpeDone == mode = "bpe" /\ cur = 0 /\ BestRank(codes, w) > NCodes
NormalForm == BpeDone => w = Rewrite(codes, Start(Ver, chars))
Lossless == mode = "bpe" => Flat(w) = Append(chars, EOW)
Stripped == BpeDone => Flat(StripEow(w)) = chars /\ Flat(BpeUnits(Cfg, chars)) = chars
DfsDone == mode = "dfs" /\ (found # <<>> \/ stack = <<>>)
Found == DfsDone => LET S == Segs(Cfg, chars, TRUE) IN IF S = {} THEN found = <<>> ELSE found = Greedy(Cfg, S)
=============================================================================
