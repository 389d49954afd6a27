---------------------------- MODULE RetentionMC -----------------------------
(* Any implementation which obeys the local clean-up rule after (some of the)      *)
(* epochs keeps the best model ever and the last one, over the whole training.      *)
EXTENDS Retention
CONSTANTS NEp, Scores, Last, BestN, KeyNames
VARIABLES st, e
vars == <<st, e>>
Cfg == [last |-> Last, best |-> BestN, keep |-> <<>>, haskeep |-> TRUE]
Init == st = MInit(Cfg) /\ e = 1
Train == /\ e <= NEp /\ e' = e + 1
         /\ \E s \in [KeyNames -> Scores] : st' = [uns |-> FALSE, models |-> st.models \cup {e}, sc |-> [x \in DOMAIN st.sc \cup {e} |-> IF x = e THEN s ELSE st.sc[x]]]
Clean == /\ \E K \in SUBSET st.models : CleanupBad(st.sc, st.models, Cfg, K, FALSE) = {} /\ st' = [st EXCEPT !.models = K]
         /\ UNCHANGED e
Next == Train \/ Clean
Spec == Init /\ [][Next]_vars
BestEver == BestEverBad(st.sc, st.models, Cfg) = {}
LastThere == e > 1 => (e - 1) \in st.models
Bounded == [][(st'.models # st.models /\ e' = e) => Cardinality(st'.models) <= Last + BestN * Cardinality(KeyNames) * Cardinality(Scores) * NEp]_vars
\* there is always some allowed clean-up result
CleanPossible == \E K \in SUBSET st.models : CleanupBad(st.sc, st.models, Cfg, K, FALSE) = {}
=============================================================================
