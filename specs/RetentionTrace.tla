---- MODULE RetentionTrace ----
EXTENDS Retention, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
NoEnd(s, cfg) == {}
INSTANCE TraceBase WITH Traces <- TR, TInit <- MInit, TBad <- MBad, TUpd <- MUpd, TEnd <- NoEnd
====
