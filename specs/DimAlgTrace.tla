---- MODULE DimAlgTrace ----
EXTENDS DimAlg, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceBase WITH Traces <- TR, TInit <- DInit, TBad <- DBad, TUpd <- DUpd, TEnd <- DEnd
====
