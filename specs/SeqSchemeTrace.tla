---- MODULE SeqSchemeTrace ----
EXTENDS SeqOrder, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
NoEnd(s, cfg) == {}
INSTANCE TraceBase WITH Traces <- TR, TInit <- SInit, TBad <- SchemeStepBad, TUpd <- SUpd, TEnd <- NoEnd
====
