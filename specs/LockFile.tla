------------------------------ MODULE LockFile ------------------------------
(* Mutual exclusion by an exclusively created lock file, which a waiter may take   *)
(* over when it is stale (its owner died and did not touch it for the timeout).    *)
(* Observed events, one per atomic step of process p on the file system:           *)
(*  look(p) create(p) remove(p) acq(p): lock() returned  rel(p): unlock() called   *)
(*  reld(p): unlock() returned   die(p)   age: the lock of a dead owner gets stale *)
(*  step(p): any other operation or wait   half: the lock gets older, but not stale *)
(*  islocked: is_locked() called   rmdir: the (empty) directory is deleted          *)
(*  ageown: the lock of a live holder gets old while nobody waits                   *)
(*  stuck(p): p still waits after a long fair schedule with nobody else active     *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
KInit(cfg) == [inst |-> 0, own |-> 0, old |-> FALSE, next |-> 1, holders |-> {}, rel |-> {}, dead |-> {},
               seen |-> [p \in 1 .. cfg.n |-> <<0, FALSE>>]]
KBad(st, cfg, e) ==
  CASE e.op = "look" -> {}
    [] e.op = "step" -> {}
    [] e.op \in {"half", "rmdir", "ageown"} -> {}
    [] e.op = "islocked" -> If(e.r # (st.inst # 0 /\ ~st.old), "is-locked-wrong")
    [] e.op = "create" -> If(st.inst # 0, "DRIVER-create")
    [] e.op = "remove" ->
         IF st.own = e.p /\ e.p \in st.rel THEN {}
         ELSE IF st.old THEN {}
         ELSE IF st.seen[e.p][2] /\ st.seen[e.p][1] # st.inst THEN {"stale-takeover-race"}
         ELSE {"fresh-lock-removed"}
    [] e.op = "acq" ->
         If(st.holders \ {e.p} # {}, "two-holders") \cup If(st.own # e.p \/ st.inst = 0, "acquired-without-lock-file")
    [] e.op = "rel" -> If(e.p \notin st.holders, "DRIVER-rel")
    [] e.op = "reld" -> If(st.inst # 0 /\ st.own = e.p, "lock-file-left-behind-after-unlock")
    [] e.op = "die" -> {}
    [] e.op = "age" -> If(~(st.own \in st.dead), "DRIVER-age")
    [] e.op = "stuck" -> If(st.inst = 0 \/ st.old, "waiter-never-gets-free-lock")
    [] e.op = "exc" -> {"exception"}
    [] OTHER -> {"DRIVER-op"}
KUpd(st, cfg, e) ==
  CASE e.op = "look" -> [st EXCEPT !.seen[e.p] = <<st.inst, st.old>>]
    [] e.op = "step" -> [st EXCEPT !.seen[e.p] = <<0, FALSE>>]
    [] e.op = "create" -> [st EXCEPT !.inst = st.next, !.next = @ + 1, !.own = e.p, !.old = FALSE]
    [] e.op = "remove" -> [st EXCEPT !.inst = 0, !.own = 0, !.old = FALSE]
    [] e.op = "acq" -> [st EXCEPT !.holders = @ \cup {e.p}]
    [] e.op = "rel" -> [st EXCEPT !.holders = @ \ {e.p}, !.rel = @ \cup {e.p}]
    [] e.op = "reld" -> [st EXCEPT !.rel = @ \ {e.p}]
    [] e.op = "die" -> [st EXCEPT !.holders = @ \ {e.p}, !.rel = @ \ {e.p}, !.dead = @ \cup {e.p}]
    [] e.op \in {"age", "ageown"} -> [st EXCEPT !.old = TRUE]
    [] OTHER -> st
=============================================================================
