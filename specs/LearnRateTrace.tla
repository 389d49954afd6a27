---- MODULE LearnRateTrace ----
EXTENDS LearnRate, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
NoEnd(s, cfg) == {}
INSTANCE TraceBase WITH Traces <- TR, TInit <- LInit, TBad <- LBad, TUpd <- LUpd, TEnd <- NoEnd
====
