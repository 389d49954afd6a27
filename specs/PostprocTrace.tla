---- MODULE PostprocTrace ----
EXTENDS Postproc, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
NoEnd(s, cfg) == {}
INSTANCE TraceBase WITH Traces <- TR, TInit <- PInit, TBad <- PBad, TUpd <- PUpd, TEnd <- NoEnd
====
