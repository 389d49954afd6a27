---- MODULE HdfStoreTrace ----
EXTENDS HdfStore, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
NoEnd(s, cfg) == {}
INSTANCE TraceBase WITH Traces <- TR, TInit <- HInit, TBad <- HBad, TUpd <- HUpd, TEnd <- NoEnd
====
