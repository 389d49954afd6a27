---- MODULE CheckpointTrace ----
EXTENDS Checkpoint, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
NoEnd(s, cfg) == If(s.run, "DRIVER-end")
INSTANCE TraceBase WITH Traces <- TR, TInit <- KInit, TBad <- KBad, TUpd <- KUpd, TEnd <- NoEnd
====
