---- MODULE SeqModelTrace ----
EXTENDS SeqModel, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceBase WITH Traces <- TR, TInit <- MInit, TBad <- MBad, TUpd <- MUpd, TEnd <- MEnd
====
