--------------------------- MODULE DistribFilesMC ---------------------------
(***************************************************************************)
(* (1) The greedy one-pass distribution of files over bins by size, for    *)
(*     every vector of sizes: it satisfies BinsBad = {} of DistribFiles.   *)
(* (2) The life cycle of the per-sub-epoch workers: a worker is started    *)
(*     ahead of time, serves an increasing sequence of indices, and is     *)
(*     replaced when its sub-epoch is started again after it was used.     *)
(***************************************************************************)
EXTENDS DistribFiles
CONSTANTS MaxFiles, MaxSize, MaxBins, MaxEp, Preload, NS, MaxOps
VARIABLES d, m
vars == <<d, m>>
Sum(s) == LET F[i \in 0 .. Len(s)] == IF i = 0 THEN 0 ELSE F[i - 1] + s[i] IN F[Len(s)]
Abs(x) == IF x < 0 THEN -x ELSE x
\* d: sizes, number of bins, current file i, bin, taken, (rt, rb): rational average, tt: total taken, bins
D0(sz, nb) == [sz |-> sz, nb |-> nb, i |-> 1, b |-> 1, taken |-> 0, rt |-> Sum(sz), rb |-> nb, tt |-> 0, bins |-> [j \in 1 .. nb |-> <<>>]]
M0 == [w |-> <<>>, ep |-> 0, pos |-> 0, ok |-> TRUE, n |-> 0]
Init == /\ \E n \in 1 .. MaxFiles, nb \in 1 .. MaxBins : n >= nb /\ \E sz \in [1 .. n -> 0 .. MaxSize] : d = D0(sz, nb)
        /\ m = M0
NextBin(x, f, tt, cur) ==  \* go to the next bin; the file goes to the current (cur) or the next one
  [x EXCEPT !.bins[IF cur THEN x.b ELSE x.b + 1] = Append(@, f - 1), !.b = @ + 1, !.taken = IF cur THEN 0 ELSE x.sz[f],
            !.rt = Sum(x.sz) - tt, !.rb = x.nb - x.b, !.tt = tt, !.i = f + 1]
Step == /\ d.i <= Len(d.sz)
        /\ LET f == d.i  s == d.sz[f]  tt == d.tt + s  left == Len(d.sz) - f + 1
               stay == [d EXCEPT !.bins[d.b] = Append(@, f - 1), !.taken = @ + s, !.tt = tt, !.i = f + 1]
           IN d' = IF left <= d.nb - d.b THEN NextBin(d, f, tt, FALSE)
                   ELSE IF d.b = d.nb THEN stay
                   ELSE IF (d.taken + s) * d.rb <= d.rt THEN stay
                   ELSE NextBin(d, f, tt, d.bins[d.b] = <<>> \/ Abs((d.taken + s) * d.rb - d.rt) <= Abs(d.taken * d.rb - d.rt))
        /\ UNCHANGED m
\* (2) m.w: <<epoch, next servable index, used>> of each live worker
Live(e) == \E j \in DOMAIN m.w : m.w[j].e = e
StartEpoch(e) ==
  /\ m.n < MaxOps
  /\ LET keep == SelectSeq(m.w, LAMBDA x : x.e >= e /\ ~(x.e = e /\ x.used))
         have == {keep[j].e : j \in DOMAIN keep}
         new == {x \in e .. e + Preload : x \notin have}
         RECURSIVE AddAll(_, _)
         AddAll(q, S) == IF S = {} THEN q ELSE LET x == CHOOSE y \in S : TRUE IN AddAll(Append(q, [e |-> x, nxt |-> 0, used |-> FALSE]), S \ {x})
     IN m' = [m EXCEPT !.w = AddAll(keep, new), !.ep = e, !.pos = 0, !.n = @ + 1]
  /\ UNCHANGED d
Get(i) == /\ m.n < MaxOps /\ m.ep > 0 /\ Live(m.ep) /\ i >= m.pos /\ i < NS
          /\ LET j == CHOOSE j \in DOMAIN m.w : m.w[j].e = m.ep
             IN m' = [m EXCEPT !.ok = @ /\ m.w[j].nxt <= i, !.w[j].nxt = i + 1, !.w[j].used = TRUE, !.pos = i + 1, !.n = @ + 1]
          /\ UNCHANGED d
Finish(free) == /\ m.n < MaxOps /\ m.ep > 0
                /\ m' = [m EXCEPT !.w = IF free THEN <<>> ELSE SelectSeq(@, LAMBDA x : x.e # m.ep), !.ep = 0, !.n = @ + 1] /\ UNCHANGED d
Machine == m.n >= 0 /\ ((\E e \in 1 .. MaxEp : StartEpoch(e)) \/ (\E i \in 0 .. NS - 1 : Get(i)) \/ (\E f \in BOOLEAN : Finish(f)))
Next == Step \/ Machine
Spec == Init /\ [][Next]_vars
Cfg == [nf |-> Len(d.sz), sizes |-> d.sz, random |-> FALSE, eq |-> d.sz[1] > 0 /\ \A i, j \in DOMAIN d.sz : d.sz[i] = d.sz[j]]
Distributed == d.i > Len(d.sz) => BinsBad(Cfg, d.bins) = {}
OneWorkerPerEpoch == \A i, j \in DOMAIN m.w : i # j => m.w[i].e # m.w[j].e
CanServe == m.ok
CurrentAlive == m.ep > 0 => Live(m.ep)
=============================================================================
