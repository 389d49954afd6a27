------------------------------ MODULE TraceBase ------------------------------
(***************************************************************************)
(* Generic total trace validator.                                          *)
(* A trace file is ndjson: one trace per line, [cfg |-> ..., ev |-> <<...>>]*)
(* The instantiating module supplies, for one trace:                       *)
(*   TInit(cfg)       initial abstract state                               *)
(*   TBad(st,cfg,e)   the set of NAMES of specification clauses which the  *)
(*                    observed event e violates in abstract state st       *)
(*                    ({} iff e is a step the specification allows)        *)
(*   TUpd(st,cfg,e)   the successor abstract state                         *)
(*   TEnd(st,cfg)     names of clauses violated by stopping here           *)
(* The verdict is total: every trace ends in ACCEPT or REJECT (printed).   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
CONSTANTS Traces, TInit(_), TBad(_, _, _), TUpd(_, _, _), TEnd(_, _)
VARIABLES tid, l, st, verdict
tvars == <<tid, l, st, verdict>>

TraceInit == /\ tid \in 1..Len(Traces)
             /\ l = 1
             /\ st = TInit(Traces[tid].cfg)
             /\ verdict = "run"

Consume ==
  /\ verdict = "run"
  /\ l <= Len(Traces[tid].ev)
  /\ LET e == Traces[tid].ev[l]
         bad == TBad(st, Traces[tid].cfg, e)
     IN IF bad = {}
        THEN /\ st' = TUpd(st, Traces[tid].cfg, e)
             /\ l' = l + 1
             /\ UNCHANGED <<tid, verdict>>
        ELSE /\ PrintT(ToJson([k |-> "REJECT", tid |-> tid, l |-> l, bad |-> bad]))
             /\ verdict' = "reject"
             /\ UNCHANGED <<tid, l, st>>

Finish ==
  /\ verdict = "run"
  /\ l = Len(Traces[tid].ev) + 1
  /\ LET bad == TEnd(st, Traces[tid].cfg)
     IN IF bad = {}
        THEN /\ PrintT(ToJson([k |-> "ACCEPT", tid |-> tid]))
             /\ verdict' = "accept"
        ELSE /\ PrintT(ToJson([k |-> "REJECT", tid |-> tid, l |-> l, bad |-> bad]))
             /\ verdict' = "reject"
  /\ UNCHANGED <<tid, l, st>>

TraceNext == Consume \/ Finish
TraceSpec == TraceInit /\ [][TraceNext]_tvars
=============================================================================
