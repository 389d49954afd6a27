---------------------------- MODULE FileCacheMC -----------------------------
(* The caching algorithm, one action per file system operation, with crashes and    *)
(* source modifications at any point. Content is a pair of halves <<v1, v2>>.       *)
EXTENDS FileCache, Json
CONSTANTS NP, MaxMod, MaxCrash, MaxGets, HistLen, EmitHist
VARIABLES st, pc, src, dst, tmp, info, lock, stale, mods, crashes, gets, omt, bad, h
vars == <<st, pc, src, dst, tmp, info, lock, stale, mods, crashes, gets, omt, bad, h>>
Cfg == [n |-> NP, tries |-> 3]
Procs == 1 .. NP
Absent == <<0, 0>>
Ver(c) == IF c = Absent THEN 0 ELSE IF c[1] = c[2] THEN c[1] ELSE -1
Init == /\ st = FInit(Cfg) /\ pc = [p \in Procs |-> "idle"] /\ src = 1 /\ dst = Absent /\ tmp = Absent /\ info = 0 /\ lock = 0
        /\ stale = FALSE /\ mods = 0 /\ crashes = 0 /\ gets = 0 /\ omt = [p \in Procs |-> 0] /\ bad = {} /\ h = <<>>
Ev(e) == bad' = bad \cup FBad(st, Cfg, e) /\ st' = FUpd(st, Cfg, e)
NoEv == UNCHANGED <<st, bad>>
Hist(x) == h' = IF EmitHist THEN Append(h, x) ELSE h
Go(p, a, b) == pc[p] = a /\ pc' = [pc EXCEPT ![p] = b] /\ Hist(<<"step", p>>)
U(x) == UNCHANGED x
Beg(p) == /\ pc[p] = "idle" /\ gets < MaxGets /\ gets' = gets + 1 /\ pc' = [pc EXCEPT ![p] = "lock"] /\ Ev([op |-> "beg", p |-> p]) /\ Hist(<<"beg", p>>)
          /\ U(<<src, dst, tmp, info, lock, stale, mods, crashes, omt>>)
Lock(p) == /\ Go(p, "lock", "check") /\ (lock = 0 \/ stale) /\ lock' = p /\ stale' = FALSE /\ NoEv /\ U(<<src, dst, tmp, info, mods, crashes, gets, omt>>)
Check(p) == /\ pc[p] = "check" /\ Hist(<<"step", p>>) /\ U(<<src, tmp, info, lock, stale, mods, crashes, gets, omt>>)
            /\ IF dst = Absent THEN pc' = [pc EXCEPT ![p] = "info0"] /\ NoEv /\ U(dst)
               ELSE IF info = 0 \/ src > info THEN pc' = [pc EXCEPT ![p] = "info0"] /\ dst' = Absent /\ Ev([op |-> "vis", p |-> p, v |-> 0])
               ELSE pc' = [pc EXCEPT ![p] = "unlock"] /\ NoEv /\ U(dst)
Info0(p) == /\ Go(p, "info0", "info1") /\ omt' = [omt EXCEPT ![p] = src] /\ info' = 0 /\ NoEv /\ U(<<src, dst, tmp, lock, stale, mods, crashes, gets>>)
Info1(p) == /\ Go(p, "info1", "copy1") /\ info' = omt[p] /\ NoEv /\ U(<<src, dst, tmp, lock, stale, mods, crashes, gets, omt>>)
Copy1(p) == /\ Go(p, "copy1", "copy2") /\ tmp' = <<src, 0>> /\ NoEv /\ U(<<src, dst, info, lock, stale, mods, crashes, gets, omt>>)
Copy2(p) == /\ Go(p, "copy2", "rename") /\ tmp' = <<tmp[1], src>> /\ NoEv /\ U(<<src, dst, info, lock, stale, mods, crashes, gets, omt>>)
Rename(p) == /\ Go(p, "rename", "unlock") /\ dst' = tmp /\ tmp' = Absent /\ Ev([op |-> "vis", p |-> p, v |-> Ver(tmp)]) /\ U(<<src, info, lock, stale, mods, crashes, gets, omt>>)
Unlock(p) == /\ Go(p, "unlock", "ret") /\ lock' = 0 /\ NoEv /\ U(<<src, dst, tmp, info, stale, mods, crashes, gets, omt>>)
Ret(p) == /\ Go(p, "ret", "idle") /\ U(<<src, dst, tmp, info, lock, stale, mods, crashes, gets, omt>>)
          /\ IF dst = Absent THEN Ev([op |-> "raise", p |-> p, enospc |-> FALSE]) ELSE Ev([op |-> "ret", p |-> p, v |-> Ver(dst)])
Crash(p) == /\ pc[p] \notin {"idle", "dead"} /\ crashes < MaxCrash /\ crashes' = crashes + 1 /\ pc' = [pc EXCEPT ![p] = "dead"] /\ Hist(<<"crash", p>>)
            /\ Ev([op |-> "crash", p |-> p]) /\ U(<<src, dst, tmp, info, lock, stale, mods, gets, omt>>)
Age == /\ lock # 0 /\ pc[lock] = "dead" /\ ~stale /\ stale' = TRUE /\ Hist(<<"age", 0>>) /\ NoEv /\ U(<<pc, src, dst, tmp, info, lock, mods, crashes, gets, omt>>)
Mod == /\ mods < MaxMod /\ mods' = mods + 1 /\ src' = src + 1 /\ Ev([op |-> "mod"]) /\ Hist(<<"mod", 0>>) /\ U(<<pc, dst, tmp, info, lock, stale, crashes, gets, omt>>)
PStep(p) == Lock(p) \/ Check(p) \/ Info0(p) \/ Info1(p) \/ Copy1(p) \/ Copy2(p) \/ Rename(p) \/ Unlock(p) \/ Ret(p)
Next == (EmitHist => Len(h) < HistLen) /\ ((\E p \in Procs : Beg(p) \/ PStep(p) \/ Crash(p)) \/ Age \/ Mod)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ WF_vars(Age) /\ \A p \in Procs : SF_vars(PStep(p))
NoClauseViolated == bad = {}
OneWriter == Cardinality({p \in Procs : pc[p] \in {"check", "info0", "info1", "copy1", "copy2", "rename", "unlock"}}) <= 1
\* whatever is visible is a complete copy, unless the source changed during the copy; then it is marked outdated
NeverTornAndTrusted == (Ver(dst) = -1 /\ info # 0) => info < src
Returns == \A p \in Procs : (pc[p] = "lock") ~> (pc[p] \in {"idle", "dead"})
Emit == (EmitHist /\ Len(h) = HistLen) => PrintT(ToJson([k |-> "BEH", h |-> h]))
=============================================================================
