---- MODULE FileCacheTrace ----
EXTENDS FileCache, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
NoEnd(s, cfg) == {}
INSTANCE TraceBase WITH Traces <- TR, TInit <- FInit, TBad <- FBad, TUpd <- FUpd, TEnd <- NoEnd
====
