---------------------------- MODULE NativeCacheMC ----------------------------
(* The algorithm, for processes with the same code.  Recheck: look again with    *)
(* the lock; Atomic: library and info appear complete or not at all.  Without    *)
(* either of them (as it was at the pinned commit) TLC finds the violations.     *)
EXTENDS NativeCache, Json
CONSTANTS NP, MaxDie, MaxVer, Rounds, Recheck, Atomic, HistLen, EmitHist
VARIABLES st, pc, lib, tmp, info, lock, dies, rounds, src, bad, h
vars == <<st, pc, lib, tmp, info, lock, dies, rounds, src, bad, h>>
Procs == 1 .. NP
Cfg == [n |-> NP, code |-> [p \in Procs |-> 1]]
\* a file: t = time of the last write, as dependency version it is newer than
None == [there |-> FALSE, complete |-> FALSE, code |-> 1, ver |-> 0, t |-> 0]
Init == /\ st = NInit(Cfg) /\ pc = [p \in Procs |-> "idle"] /\ lib = None /\ tmp = None /\ info = "none" /\ lock = 0 /\ dies = 0
        /\ rounds = [p \in Procs |-> 0] /\ src = [p \in Procs |-> 0] /\ bad = {} /\ h = <<>>
Ev(e) == bad' = bad \cup NBad(st, Cfg, e) /\ st' = NUpd(st, Cfg, e)
NoEv == UNCHANGED <<bad, st>>
Hist(x) == h' = IF EmitHist THEN Append(h, x) ELSE h
Go(p, x) == pc' = [pc EXCEPT ![p] = x]
\* reading an incomplete info file fails
Need == ~lib.there \/ st.ver > lib.t \/ info = "none"
L(f) == [complete |-> f.there /\ f.complete, code |-> 1, ver |-> f.ver]
Call(p) == pc[p] = "idle" /\ rounds[p] < Rounds /\ rounds' = [rounds EXCEPT ![p] = @ + 1] /\ Ev([op |-> "call", p |-> p]) /\ Go(p, "check")
           /\ UNCHANGED <<lib, tmp, info, lock, dies, src>>
Check(p) == pc[p] = "check" /\ UNCHANGED <<lib, tmp, info, lock, dies, rounds, src>>
            /\ IF info = "part" /\ lib.there THEN Ev([op |-> "exc", p |-> p]) /\ Go(p, "dead")
               ELSE NoEv /\ Go(p, IF Need THEN "lock" ELSE "ret")
Lock(p) == pc[p] = "lock" /\ (IF lock = 0 THEN TRUE ELSE pc[lock] = "dead") /\ lock' = p /\ Go(p, IF Recheck THEN "recheck" ELSE "open") /\ NoEv /\ UNCHANGED <<lib, tmp, info, dies, rounds, src>>
Re(p) == pc[p] = "recheck" /\ UNCHANGED <<lib, tmp, info, lock, dies, rounds, src>>
         /\ IF info = "part" /\ lib.there THEN Ev([op |-> "exc", p |-> p]) /\ Go(p, "dead")
            ELSE NoEv /\ Go(p, IF Need THEN "open" ELSE "unlock")
Part == [there |-> TRUE, complete |-> FALSE, code |-> 1, ver |-> st.ver, t |-> st.ver]
Open(p) == pc[p] = "open" /\ src' = [src EXCEPT ![p] = st.ver] /\ Go(p, "write") /\ NoEv /\ UNCHANGED <<info, lock, dies, rounds>>
           /\ IF Atomic THEN tmp' = Part /\ UNCHANGED lib ELSE lib' = Part /\ UNCHANGED tmp
Write(p) == pc[p] = "write" /\ Go(p, "rename") /\ NoEv /\ UNCHANGED <<info, lock, dies, rounds, src>>
            /\ LET f == [there |-> TRUE, complete |-> TRUE, code |-> 1, ver |-> src[p], t |-> src[p]]
               IN IF Atomic THEN tmp' = f /\ UNCHANGED lib ELSE lib' = f /\ UNCHANGED tmp
Rename(p) == pc[p] = "rename" /\ Go(p, "info") /\ NoEv /\ UNCHANGED <<info, lock, dies, rounds, src>>
             /\ IF Atomic THEN lib' = tmp /\ tmp' = None ELSE UNCHANGED <<lib, tmp>>
Info(p) == pc[p] = "info" /\ NoEv /\ UNCHANGED <<lib, tmp, lock, dies, rounds, src>>
           /\ IF Atomic \/ info = "part" THEN info' = "ok" /\ Go(p, "unlock") ELSE info' = "part" /\ Go(p, "info")
Unlock(p) == pc[p] = "unlock" /\ lock = p /\ lock' = 0 /\ Go(p, "ret") /\ NoEv /\ UNCHANGED <<lib, tmp, info, dies, rounds, src>>
Ret(p) == pc[p] = "ret" /\ Ev([op |-> "ret", p |-> p, lib |-> L(lib)]) /\ Go(p, "use") /\ UNCHANGED <<lib, tmp, info, lock, dies, rounds, src>>
Use(p) == pc[p] = "use" /\ Ev([op |-> "use", p |-> p, lib |-> L(lib)]) /\ Go(p, "idle") /\ UNCHANGED <<lib, tmp, info, lock, dies, rounds, src>>
Die(p) == pc[p] \notin {"dead", "idle"} /\ dies < MaxDie /\ dies' = dies + 1 /\ Ev([op |-> "die", p |-> p]) /\ Go(p, "dead")
          /\ Hist(<<"die", p>>) /\ UNCHANGED <<lib, tmp, info, lock, rounds, src>>
\* the headers do not change while a compiler is running
Dep == st.ver < MaxVer /\ (\A p \in Procs : pc[p] \notin {"open", "write", "rename"}) /\ Ev([op |-> "dep"]) /\ Hist(<<"dep", 0>>)
       /\ UNCHANGED <<pc, lib, tmp, info, lock, dies, rounds, src>>
Step(p) == Hist(<<"step", p>>) /\ (Call(p) \/ Check(p) \/ Lock(p) \/ Re(p) \/ Open(p) \/ Write(p) \/ Rename(p) \/ Info(p) \/ Unlock(p) \/ Ret(p) \/ Use(p))
Next == (EmitHist => Len(h) < HistLen) /\ ((\E p \in Procs : Step(p) \/ Die(p)) \/ Dep)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A p \in Procs : SF_vars(Step(p))
NoClauseViolated == bad = {}
Progress == \A p \in Procs : <>(pc[p] = "dead" \/ (pc[p] = "idle" /\ rounds[p] = Rounds))
Emit == (EmitHist /\ Len(h) = HistLen) => PrintT(ToJson([k |-> "BEH", h |-> h]))
=============================================================================
