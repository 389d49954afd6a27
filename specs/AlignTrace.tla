---- MODULE AlignTrace ----
EXTENDS Align, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
INSTANCE TraceBase WITH Traces <- TR, TInit <- AInit, TBad <- ABad, TUpd <- AUpd, TEnd <- AEnd
====
