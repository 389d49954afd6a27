---- MODULE DatasetAccessTrace ----
EXTENDS DatasetAccess, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
NoEnd(s, cfg) == {}
INSTANCE TraceBase WITH Traces <- TR, TInit <- AInit, TBad <- ABad, TUpd <- AUpd, TEnd <- NoEnd
====
