---- MODULE ForwardTrace ----
EXTENDS Forward, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceBase WITH Traces <- TR, TInit <- FInit, TBad <- FBad, TUpd <- FUpd, TEnd <- FEnd
====
