-------------------------- MODULE DatasetAccessMC ---------------------------
(***************************************************************************)
(* Model of the buffering implementation (CachedDataset2): a window of     *)
(* already produced sequences, filled monotonically from a source whose    *)
(* length is either known or only discovered by running into its end.      *)
(* Checked: for every legal consumer history the window answers every      *)
(* question as DatasetAccess demands, and the source is asked for every    *)
(* existing sequence at most once and in order.                            *)
(***************************************************************************)
EXTENDS DatasetAccess, Json
CONSTANTS MaxN, MaxE, HistLen, EmitHist, KnownSet
VARIABLES cfg, st, win, expected, num, prod, hist, bad
vars == <<cfg, st, win, expected, num, prod, hist, bad>>

Init ==
  \E n1, n2 \in 1 .. MaxN, k \in KnownSet :
    /\ cfg = [order |-> <<[i \in 1 .. n1 |-> i - 1], [i \in 1 .. n2 |-> n2 - i]>>,
              lens |-> [i \in 1 .. MaxN |-> i], known |-> k, exactfrac |-> FALSE]
    /\ st = AInit(cfg)
    /\ win = <<>> /\ expected = 0 /\ num = -1 /\ prod = <<>> /\ hist = <<>> /\ bad = {}

NN == N(st, cfg)

\* the implementation step: produce everything in [expected..end) not yet in the window
Filled(w, a, b) ==
  LET kept == SelectSeq(w, LAMBDA i : i >= a)
      from == IF kept = <<>> THEN a ELSE Max2(kept[Len(kept)] + 1, a)
      new == IF from >= Min2(b, NN) THEN <<>> ELSE [j \in 1 .. Min2(b, NN) - from |-> from + j - 1]
  IN [w |-> kept \o new, new |-> new]

Log(o) == hist' = Append(hist, o)
Step(e) == bad' = ABad(st, cfg, e) /\ st' = AUpd(st, cfg, e) /\ UNCHANGED cfg

DoInit(ep) ==
  /\ Step([op |-> "init", ep |-> ep])
  /\ win' = <<>> /\ expected' = 0 /\ num' = (IF cfg.known THEN Len(cfg.order[ep]) ELSE -1) /\ prod' = <<>>
  /\ Log(<<"init", ep>>)

DoLess(n) ==
  /\ st.ep > 0
  /\ IF n < expected \/ num >= 0
     THEN LET r == (n < expected) \/ n < num IN
            /\ Step([op |-> "less", n |-> n, r |-> r])
            /\ UNCHANGED <<win, expected, num, prod>>
     ELSE LET f == Filled(win, expected, n + 1)
              r == \E i \in 1 .. Len(f.w) : f.w[i] = n
          IN /\ Step([op |-> "less", n |-> n, r |-> r])
             /\ win' = f.w /\ prod' = prod \o f.new
             /\ num' = IF r \/ f.w = <<>> THEN num ELSE f.w[Len(f.w)] + 1
             /\ UNCHANGED expected
  /\ Log(<<"less", n>>)

DoLoad(a, b) ==
  /\ st.ep > 0 /\ st.lo <= a /\ a <= b /\ a < st.conf
  /\ LET f == Filled(win, a, b) IN
       /\ win' = f.w /\ prod' = prod \o f.new
       /\ expected' = a
  /\ Step([op |-> "load", a |-> a, b |-> b, ok |-> TRUE])
  /\ UNCHANGED num
  /\ Log(<<"load", a, b>>)

DoData(i) ==
  /\ st.la <= i /\ i < st.lb
  /\ Step([op |-> "data", i |-> i, v |-> IF \E j \in 1 .. Len(win) : win[j] = i THEN At(st, cfg, i) ELSE -1])
  /\ UNCHANGED <<win, expected, num, prod>>
  /\ Log(<<"data", i>>)

DoTag(i) ==   \* may be asked before the sequence is loaded
  /\ st.lo <= i /\ i < st.conf
  /\ LET f == Filled(win, expected, i + 1) IN
       /\ win' = f.w /\ prod' = prod \o f.new
       /\ Step([op |-> "tag", i |-> i, v |-> IF \E j \in 1 .. Len(f.w) : f.w[j] = i THEN At(st, cfg, i) ELSE -1])
  /\ UNCHANGED <<expected, num>>
  /\ Log(<<"tag", i>>)

Next ==
  /\ Len(hist) < HistLen
  /\ \/ \E ep \in 1 .. MaxE : DoInit(ep)
     \/ \E n \in 0 .. MaxN + 1 : DoLess(n)
     \/ \E a \in 0 .. MaxN, b \in 0 .. MaxN + 1 : DoLoad(a, b)
     \/ \E i \in 0 .. MaxN : DoData(i) \/ DoTag(i)

Spec == Init /\ [][Next]_vars
View == <<cfg, st, win, expected, num, prod, bad, Len(hist)>>

NoClauseViolated == bad = {}
ProducedOnceInOrder == \A i, j \in 1 .. Len(prod) : i < j => prod[i] < prod[j]
WindowHoldsLoaded == \A i \in 0 .. MaxN : (st.la <= i /\ i < st.lb) => \E j \in 1 .. Len(win) : win[j] = i

Emit == (EmitHist /\ Len(hist) = HistLen) =>
          PrintT(ToJson([k |-> "BEH", n1 |-> Len(cfg.order[1]), n2 |-> Len(cfg.order[2]), h |-> hist]))
=============================================================================
