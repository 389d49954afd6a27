---------------------------- MODULE NativeCache ----------------------------
(***************************************************************************)
(* The cache of compiled native code.  Processes ask for the library of    *)
(* their code, at any time, concurrently; they may die anywhere; the       *)
(* headers which the code depends on may change.  A process which got its  *)
(* library uses it some time later.  cfg.code[p]: the code of process p.   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC
If(c, n) == IF c THEN {n} ELSE {}
NInit(cfg) == [ver |-> 1, call |-> [p \in 1 .. cfg.n |-> 0]]
\* lib = [complete, code, ver]: what is in the file which the process was told to use
LibBad(st, cfg, e) ==
  IF ~e.lib.complete THEN {"incomplete-library"}
  ELSE If(e.lib.code # cfg.code[e.p], "library-of-other-code") \cup If(e.lib.ver < st.call[e.p], "outdated-library")
NBad(st, cfg, e) ==
  CASE e.op \in {"ret", "use"} -> LibBad(st, cfg, e)
    [] e.op = "exc" -> {"failed"}
    [] e.op = "stuck" -> {"stuck"}
    [] e.op \in {"call", "die", "dep", "age"} -> {}
    [] e.op = "recompiled" -> {"recently-used-library-removed"}
    [] OTHER -> {e.op}
NUpd(st, cfg, e) ==
  CASE e.op = "call" -> [st EXCEPT !.call[e.p] = st.ver]
    [] e.op = "dep" -> [st EXCEPT !.ver = @ + 1]
    [] OTHER -> st
NEnd(st, cfg) == {}
=============================================================================
