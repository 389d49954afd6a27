---- MODULE TextVocabTrace ----
EXTENDS TextVocab, Json, IOUtils
VARIABLES tid, l, st, verdict
TR == ndJsonDeserialize(IOEnv.TRACE_FILE)
VEnd(s, cfg) == {}
INSTANCE TraceBase WITH Traces <- TR, TInit <- VInit, TBad <- VBad, TUpd <- VUpd, TEnd <- VEnd
====
