---- MODULE DistribFilesTrace ----
EXTENDS DistribFiles, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
NoEnd(s, cfg) == {}
INSTANCE TraceBase WITH Traces <- TR, TInit <- DInit, TBad <- DBad, TUpd <- DUpd, TEnd <- NoEnd
====
