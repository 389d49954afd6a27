----------------------------- MODULE TrainLoopMC ----------------------------
(* The training loop with one parameter, any batching of the sequences. *)
EXTENDS TrainLoop
CONSTANTS NSeq, NEp, MaxB, Acc
VARIABLES st, log
vars == <<st, log>>
Cfg == [seqs |-> <<[i \in 1..NSeq |-> [n |-> 1, x |-> <<i>>, f |-> 1]], <<[n |-> 1, x |-> <<7>>, f |-> 1]>> >>, params |-> <<[loss |-> 1, frozen |-> FALSE, wd |-> FALSE]>>,
        losses |-> <<[scale |-> 1, norm |-> FALSE, cnorm |-> FALSE, err |-> FALSE]>>, unit |-> 1, w0 |-> <<0>>, lr |-> [e \in 1..NEp |-> e], dynlr |-> <<1, 2>>, mult |-> 1, lrden |-> 1, lrshow |-> 1,
        accum |-> <<Acc>>, clip |-> 0, wdinv |-> 1, nep |-> NEp]
Init == st = LInit(Cfg) /\ log = <<>>
Ev(B) == LET full == Len(st.seen) = NSeq IN [op |-> "step", ep |-> IF full THEN st.ep + 1 ELSE st.ep, step |-> st.step, seqs |-> B, w |-> st.w, loss |-> <<LossSum(Cfg, 1, B, st.w, 1)>>]
Seqs(n) == UNION {[1..k -> 1..NSeq] : k \in 1..n}
Step == \E B \in Seqs(MaxB) :
          /\ Cardinality(Range(B)) = Len(B)
          /\ LET e == Ev(B) IN /\ e.ep <= NEp /\ LBad(st, Cfg, e) = {} /\ st' = LUpd(st, Cfg, e)
                              /\ log' = Append(log, [ep |-> e.ep, b |-> B, step |-> e.step])
Next == Step
Spec == Init /\ [][Next]_vars
\* the parameter is the weighted sum of exactly the batches of complete accumulation groups, per epoch
Groups(ep) == LET I == {i \in DOMAIN log : log[i].ep = ep} IN I
InEp(i) == Cardinality({j \in DOMAIN log : log[j].ep = log[i].ep /\ j < i})
\* index of the update which consumes batch i (0: none yet / dropped at the epoch end)
UpdOf(i) == LET k == (InEp(i) \div Acc) * Acc + Acc
                J == {j \in DOMAIN log : log[j].ep = log[i].ep /\ InEp(j) = k - 1} IN IF J = {} THEN 0 ELSE CHOOSE j \in J : TRUE
Expected == -Sum([i \in DOMAIN log |-> IF UpdOf(i) = 0 THEN 0 ELSE BatchX(Cfg, 1, log[i].b, 1) * LrAt(Cfg, log[i].ep, log[UpdOf(i)].step)], DOMAIN log)
Linear == st.w[1] = Expected
NoLeak == (log # <<>> /\ st.c = 0) => st.g[1] = 0
=============================================================================
