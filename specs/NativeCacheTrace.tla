---- MODULE NativeCacheTrace ----
EXTENDS NativeCache, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceBase WITH Traces <- TR, TInit <- NInit, TBad <- NBad, TUpd <- NUpd, TEnd <- NEnd
====
