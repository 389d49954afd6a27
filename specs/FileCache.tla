----------------------------- MODULE FileCache ------------------------------
(* Local cache of remote files. Part 1: one cached file, its source changing over   *)
(* time, several processes calling get_file concurrently, crashing anywhere, or     *)
(* hitting a full disk. Part 2: the clean-up policy.                                *)
(* Events: beg(p) get_file called; vis(p, v) the file visible under the cache path  *)
(* changed by a step of p: v = 0 absent, n = complete copy of source version n,     *)
(* -1 anything else; ret(p, v): get_file returned a path with content v;            *)
(* raise(p); crash(p); mod: the source gets a new version; fault(p): ENOSPC;        *)
(* stuck(p); use(f): keep-alive round; cleanup (see below).                         *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
Range(s) == {s[i] : i \in 1 .. Len(s)}
FInit(cfg) == [cur |-> 1, vis |-> 0, act |-> [p \in 1 .. cfg.n |-> [on |-> FALSE, beg |-> 0, mod |-> FALSE, faults |-> 0]]]
Idle == [on |-> FALSE, beg |-> 0, mod |-> FALSE, faults |-> 0]

--------------------------------------------------------------------------------
(* clean-up: files = sequence of [id, age (s), size (blocks), left, info] sorted as observed   *)
Want(e) == LET a == e.mult * e.need  b == (e.ratio * e.total) \div 100 IN IF a > b THEN a ELSE b
RECURSIVE SumSize(_, _)
SumSize(F, S) == IF S = {} THEN 0 ELSE LET i == CHOOSE i \in S : TRUE IN F[i].size + SumSize(F, S \ {i})
CleanupBad(e) ==
  LET F == e.files
      D == {i \in 1 .. Len(F) : ~F[i].left}
      K == {i \in (1 .. Len(F)) \ D : ~F[i].unrem}   \* kept (files which cannot be removed do not count: the disk said no)
      Used(i) == F[i].age <= 10
      VeryOld(i) == F[i].age > e.always
      Older(i, j) == F[i].age > F[j].age \/ (F[i].age = F[j].age /\ F[i].rank > F[j].rank)
      Free0 == e.free
      FreeAfter == Free0 + SumSize(F, D)
      NoOp == Want(e) <= Free0 /\ e.recent
      \* free space before the deletion of i, as all deletions go from old to new
      FreeBefore(i) == Free0 + SumSize(F, {j \in D : Older(j, i)})
  IN If(\E i \in D : Used(i), "deleted-file-in-use")
     \cup If(\E i \in D : \E j \in K : Older(j, i), "deleted-newer-before-older")
     \cup If(NoOp /\ D # {}, "deleted-without-reason")
     \cup If(\E i \in D : ~VeryOld(i) /\ FreeBefore(i) >= e.need /\ ~(FreeBefore(i) < Want(e) /\ F[i].age > e.wanted), "deleted-without-reason")
     \cup If(~NoOp /\ ~e.raised /\ \E i \in K : VeryOld(i), "very-old-file-kept")
     \cup If(~e.raised /\ FreeAfter < e.need, "not-enough-space-but-no-error")
     \cup If(e.raised /\ FreeAfter >= e.need, "error-although-enough-space")
     \cup If(e.raised /\ \E i \in K : ~Used(i), "error-although-more-could-be-freed")
     \cup If(~e.raised /\ FreeAfter < Want(e) /\ ~NoOp /\ \E i \in K : F[i].age > e.wanted, "wanted-space-not-freed")
     \cup If(\E i \in D : F[i].info, "info-file-left-behind")
     \cup If(\E i \in K : ~F[i].info /\ F[i].hadinfo, "info-file-of-kept-file-deleted")
     \cup If(e.dirlost, "dir-in-use-deleted")

FBad(st, cfg, e) ==
  CASE e.op = "mod" -> {}
    [] e.op = "beg" -> If(st.act[e.p].on, "DRIVER-beg")
    [] e.op = "fault" -> {}
    [] e.op = "crash" -> {}
    [] e.op = "age" -> {}
    [] e.op = "vis" ->
         LET a == st.act[e.p] IN
         If(e.v = -1 /\ ~a.mod, "partial-file-visible-in-cache")
         \cup If(e.v > 0 /\ e.v < a.beg, "outdated-version-put-into-cache")
         \cup If(e.v > st.cur, "DRIVER-version")
    [] e.op = "ret" ->
         LET a == st.act[e.p] IN
         If(~a.on, "DRIVER-ret")
         \cup If(e.v \in {-1, 0} /\ ~a.mod, "returned-file-incomplete")
         \cup If(e.v > 0 /\ e.v < a.beg, "returned-outdated-version")
    [] e.op = "raise" ->
         LET a == st.act[e.p] IN
         If(~a.mod /\ a.faults = 0, "get-file-failed")
         \cup If(~a.mod /\ a.faults > 0 /\ a.faults < cfg.tries, "no-retry-after-full-disk")
         \cup If(~a.mod /\ a.faults > 0 /\ ~e.enospc, "wrong-error")
    [] e.op = "stuck" -> {"never-returns-after-crash-of-another-process"}
    [] e.op = "use" -> If(e.held /\ ~e.fresh, "used-file-not-kept-alive") \cup If(~e.held /\ e.fresh, "released-file-kept-alive")
    [] e.op = "cleanup" -> CleanupBad(e)
    [] OTHER -> {"DRIVER-op"}
FUpd(st, cfg, e) ==
  CASE e.op = "mod" -> [st EXCEPT !.cur = @ + 1, !.act = [p \in DOMAIN st.act |-> [st.act[p] EXCEPT !.mod = @ \/ st.act[p].on]]]
    [] e.op = "beg" -> [st EXCEPT !.act[e.p] = [on |-> TRUE, beg |-> st.cur, mod |-> FALSE, faults |-> 0]]
    [] e.op = "vis" -> [st EXCEPT !.vis = e.v]
    [] e.op = "fault" -> [st EXCEPT !.act[e.p].faults = @ + 1]
    [] e.op \in {"ret", "raise", "crash"} -> [st EXCEPT !.act[e.p] = Idle]
    [] OTHER -> st
=============================================================================
