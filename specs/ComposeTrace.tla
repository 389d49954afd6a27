---- MODULE ComposeTrace ----
EXTENDS Compose, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
NoEnd(s, cfg) == {}
INSTANCE TraceBase WITH Traces <- TR, TInit <- CInit, TBad <- CBad, TUpd <- CUpd, TEnd <- NoEnd
====
