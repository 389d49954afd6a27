---- MODULE BatchingTrace ----
EXTENDS Batching, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceBase WITH Traces <- TR, TInit <- BInit, TBad <- BBad, TUpd <- BUpd, TEnd <- BEnd
====
