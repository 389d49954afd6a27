---------------------------- MODULE MultiProcMC -----------------------------
(***************************************************************************)
(* The worker protocol of MultiProcDataset: one pipe per worker in each    *)
(* direction, workers prefetch while no request is pending, the parent     *)
(* asks for one sequence at a time and may skip sequences or abandon the   *)
(* epoch.  Sized mode: global index i is local index i \div NW of worker   *)
(* i % NW.  Unsized mode (the workers' streams have unknown and possibly   *)
(* different lengths): round robin over the workers not yet exhausted.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets
CONSTANTS NW, NSeq, Buf, NInit, Sized, MaxSkip
VARIABLES req, rep, wk, ps
vars == <<req, rep, wk, ps>>
W == 0 .. NW - 1
Shard(w) == {i \in 0 .. NSeq - 1 : i % NW = w}
NOf(w) == IF Sized THEN Cardinality(Shard(w)) ELSE IF w = 0 THEN 1 ELSE (NSeq - 1) \div (NW - 1)
RECURSIVE SumN(_)
SumN(w) == IF w < 0 THEN 0 ELSE NOf(w) + SumN(w - 1)
Total == SumN(NW - 1)
Sched0 == [j \in 1 .. NW |-> [w |-> j - 1, k |-> 0]]
\* worker: epoch, next local index to prefetch, cache (sequence of local indices)
\* parent: epoch, next global index, target (skipping up to it), waiting for worker (or -1), local index asked, delivered <<worker, local>>, schedule
P0(ep, ok) == [ep |-> ep, i |-> 0, tgt |-> 0, wait |-> -1, k |-> 0, got |-> <<>>, seen |-> <<>>, sch |-> Sched0, done |-> FALSE, ok |-> ok]
Init == /\ req = [w \in W |-> <<>>] /\ rep = [w \in W |-> <<>>]
        /\ wk = [w \in W |-> [ep |-> 0, nxt |-> 0, cache |-> <<>>]]
        /\ ps = P0(0, TRUE)
StartEpoch == /\ ps.wait = -1 /\ ps.ep < NInit
              /\ ps' = P0(ps.ep + 1, ps.ok)
              /\ req' = [w \in W |-> Append(req[w], [m |-> "init", ep |-> ps.ep + 1])] /\ UNCHANGED <<rep, wk>>
\* the consumer wants sequence ps.i + s next (s sequences skipped)
Want(s) == /\ ps.ep > 0 /\ ps.wait = -1 /\ ~ps.done /\ ps.tgt = ps.i /\ s > 0 /\ ps.i + s < Total
           /\ ps' = [ps EXCEPT !.tgt = ps.i + s, !.i = IF Sized THEN ps.i + s ELSE @] /\ UNCHANGED <<req, rep, wk>>
Ask == /\ ps.ep > 0 /\ ps.wait = -1 /\ ~ps.done
       /\ IF Sized THEN LET w == ps.i % NW IN /\ req' = [req EXCEPT ![w] = Append(@, [m |-> "get", k |-> ps.i \div NW])] /\ ps' = [ps EXCEPT !.wait = w, !.k = ps.i \div NW]
          ELSE IF ps.sch = <<>> THEN /\ ps' = [ps EXCEPT !.done = TRUE] /\ UNCHANGED req
          ELSE LET h == Head(ps.sch) IN /\ req' = [req EXCEPT ![h.w] = Append(@, [m |-> "get", k |-> h.k])] /\ ps' = [ps EXCEPT !.wait = h.w, !.k = h.k, !.sch = Tail(@)]
       /\ UNCHANGED <<rep, wk>>
Receive == /\ ps.wait # -1 /\ rep[ps.wait] # <<>>
           /\ LET r == Head(rep[ps.wait])
                  ok == ps.ok /\ r.ep = ps.ep /\ r.k \in {ps.k, -1}
                  deliver == ps.i >= ps.tgt
              IN
              /\ rep' = [rep EXCEPT ![ps.wait] = Tail(@)]
              /\ ps' = IF r.k = -1 THEN [ps EXCEPT !.wait = -1, !.done = Sized, !.ok = ok]
                       ELSE [ps EXCEPT !.wait = -1, !.i = @ + 1, !.tgt = IF deliver THEN ps.i + 1 ELSE @, !.ok = ok,
                                !.sch = IF Sized THEN @ ELSE Append(@, [w |-> ps.wait, k |-> ps.k + 1]),
                                !.seen = Append(@, <<ps.wait, r.k>>),
                                !.got = IF deliver THEN Append(@, ps.i) ELSE @]
           /\ UNCHANGED <<req, wk>>
Prefetch(w) == /\ wk[w].ep > 0 /\ req[w] = <<>> /\ Len(wk[w].cache) < Buf /\ wk[w].nxt < NOf(w)
               /\ wk' = [wk EXCEPT ![w].cache = Append(@, wk[w].nxt), ![w].nxt = @ + 1] /\ UNCHANGED <<req, rep, ps>>
RECURSIVE DropBelow(_, _)
DropBelow(c, k) == IF c # <<>> /\ Head(c) < k THEN DropBelow(Tail(c), k) ELSE c
Serve(w) == /\ req[w] # <<>>
            /\ LET m == Head(req[w]) IN
               /\ req' = [req EXCEPT ![w] = Tail(@)]
               /\ IF m.m = "init" THEN wk' = [wk EXCEPT ![w] = [ep |-> m.ep, nxt |-> 0, cache |-> <<>>]] /\ UNCHANGED rep
                  ELSE LET c == DropBelow(wk[w].cache, m.k)
                           have == c # <<>> /\ Head(c) = m.k
                           ex == m.k < NOf(w)
                       IN /\ rep' = [rep EXCEPT ![w] = Append(@, [k |-> IF have \/ ex THEN m.k ELSE -1, ep |-> wk[w].ep])]
                          /\ wk' = IF have \/ ~ex THEN [wk EXCEPT ![w].cache = c] ELSE [wk EXCEPT ![w].cache = <<m.k>>, ![w].nxt = m.k + 1]
            /\ UNCHANGED ps
Next == StartEpoch \/ Ask \/ Receive \/ (\E s \in 1 .. MaxSkip : Want(s)) \/ \E w \in W : Prefetch(w) \/ Serve(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(StartEpoch) /\ WF_vars(Ask) /\ WF_vars(Receive) /\ \A w \in W : WF_vars(Prefetch(w)) /\ WF_vars(Serve(w))
RightSeq == \A j \in DOMAIN ps.got : j > 1 => ps.got[j] > ps.got[j - 1]
NoSeqTwice == \A a, b \in DOMAIN ps.seen : a # b => ps.seen[a] # ps.seen[b]
SizedOrder == Sized => \A j \in DOMAIN ps.seen : ps.seen[j][2] * NW + ps.seen[j][1] = ps.got[j]
NeverBackward == \A w \in W : \A a, b \in DOMAIN wk[w].cache : a < b => wk[w].cache[a] < wk[w].cache[b]
NoStaleReply == ps.ok /\ \A w \in W : Len(rep[w]) <= 1
AllDelivered == ps.done => ps.i = Total /\ (MaxSkip = 0 => Len(ps.got) = Total)
Progress == <>[](ps.done)
=============================================================================
