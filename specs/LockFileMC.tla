----------------------------- MODULE LockFileMC -----------------------------
(* The lock algorithm, one action per file system operation; any number of        *)
(* processes may die anywhere. Atomic=TRUE: judging a lock stale and removing it   *)
(* is one step (the design which the property demands); Atomic=FALSE: two steps,   *)
(* as in the code at the pinned commit - TLC then finds the takeover race.         *)
EXTENDS LockFile, Json
CONSTANTS NP, Atomic, MaxDie, MaxRounds, HistLen, EmitHist
VARIABLES st, pc, dies, rounds, bad, h
vars == <<st, pc, dies, rounds, bad, h>>
Cfg == [n |-> NP]
Procs == 1 .. NP
Init == /\ st = KInit(Cfg) /\ pc = [p \in Procs |-> "try"] /\ dies = 0 /\ rounds = [p \in Procs |-> 0] /\ bad = {} /\ h = <<>>
Ev(e) == bad' = bad \cup KBad(st, Cfg, e) /\ st' = KUpd(st, Cfg, e)
Hist(x) == h' = IF EmitHist THEN Append(h, x) ELSE h
Try(p) == /\ pc[p] = "try" /\ Hist(<<"step", p>>) /\ UNCHANGED <<dies, rounds>>
          /\ IF st.inst = 0 THEN Ev([op |-> "create", p |-> p]) /\ pc' = [pc EXCEPT ![p] = "got"]
             ELSE pc' = [pc EXCEPT ![p] = "check"] /\ UNCHANGED <<st, bad>>
Got(p) == /\ pc[p] = "got" /\ Ev([op |-> "acq", p |-> p]) /\ pc' = [pc EXCEPT ![p] = "cs"] /\ Hist(<<"step", p>>) /\ UNCHANGED <<dies, rounds>>
Check(p) == /\ pc[p] = "check" /\ Hist(<<"step", p>>) /\ UNCHANGED <<dies, rounds>>
            /\ IF st.inst # 0 /\ st.old
               THEN IF Atomic THEN Ev([op |-> "remove", p |-> p]) /\ pc' = [pc EXCEPT ![p] = "try"]
                    ELSE Ev([op |-> "look", p |-> p]) /\ pc' = [pc EXCEPT ![p] = "rm"]
               ELSE Ev([op |-> "look", p |-> p]) /\ pc' = [pc EXCEPT ![p] = "try"]
Rm(p) == /\ pc[p] = "rm" /\ pc' = [pc EXCEPT ![p] = "try"] /\ Hist(<<"step", p>>) /\ UNCHANGED <<dies, rounds>>
         /\ IF st.inst # 0 THEN Ev([op |-> "remove", p |-> p]) ELSE UNCHANGED <<st, bad>>
Rel(p) == /\ pc[p] = "cs" /\ Ev([op |-> "rel", p |-> p]) /\ pc' = [pc EXCEPT ![p] = "relrm"] /\ Hist(<<"rel", p>>) /\ UNCHANGED <<dies, rounds>>
RelRm(p) == /\ pc[p] = "relrm" /\ st.own = p /\ Ev([op |-> "remove", p |-> p]) /\ pc' = [pc EXCEPT ![p] = "reld"] /\ Hist(<<"step", p>>) /\ UNCHANGED <<dies, rounds>>
RelD(p) == /\ pc[p] = "reld" /\ Ev([op |-> "reld", p |-> p]) /\ rounds' = [rounds EXCEPT ![p] = @ + 1]
           /\ pc' = [pc EXCEPT ![p] = IF rounds[p] + 1 < MaxRounds THEN "try" ELSE "done"] /\ Hist(<<"step", p>>) /\ UNCHANGED dies
Die(p) == /\ pc[p] \notin {"dead", "done"} /\ dies < MaxDie /\ dies' = dies + 1 /\ Ev([op |-> "die", p |-> p])
          /\ pc' = [pc EXCEPT ![p] = "dead"] /\ Hist(<<"die", p>>) /\ UNCHANGED rounds
Age == /\ st.inst # 0 /\ ~st.old /\ st.own \in st.dead /\ Ev([op |-> "age"]) /\ Hist(<<"age", 0>>) /\ UNCHANGED <<pc, dies, rounds>>
Step(p) == Try(p) \/ Got(p) \/ Check(p) \/ Rm(p) \/ Rel(p) \/ RelRm(p) \/ RelD(p)
Next == (EmitHist => Len(h) < HistLen) /\ ((\E p \in Procs : Step(p) \/ Die(p)) \/ Age)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Age) /\ \A p \in Procs : SF_vars(Try(p)) /\ WF_vars(Got(p)) /\ WF_vars(Check(p)) /\ WF_vars(Rm(p)) /\ WF_vars(Rel(p)) /\ WF_vars(RelRm(p)) /\ WF_vars(RelD(p))
NoClauseViolated == bad = {}
MutualExclusion == Cardinality(st.holders) <= 1
\* a crashed holder never blocks the others for ever
Progress == \A p \in Procs : <>(pc[p] \in {"done", "dead"})
Emit == (EmitHist /\ Len(h) = HistLen) => PrintT(ToJson([k |-> "BEH", h |-> h]))
=============================================================================
