---- MODULE PosEncTrace ----
EXTENDS PosEnc, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceBase WITH Traces <- TR, TInit <- PInit, TBad <- PBad, TUpd <- PUpd, TEnd <- PEnd
====
