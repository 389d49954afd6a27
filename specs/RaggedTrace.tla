---- MODULE RaggedTrace ----
EXTENDS Ragged, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceBase WITH Traces <- TR, TInit <- RInit, TBad <- RBad, TUpd <- RUpd, TEnd <- REnd
====
