---- MODULE LockFileTrace ----
EXTENDS LockFile, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
NoEnd(s, cfg) == {}
INSTANCE TraceBase WITH Traces <- TR, TInit <- KInit, TBad <- KBad, TUpd <- KUpd, TEnd <- NoEnd
====
