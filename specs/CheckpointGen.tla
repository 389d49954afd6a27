---------------------------- MODULE CheckpointGen ---------------------------
(* All pairs of crash points of the checkpointing protocol, for replay into the code. *)
EXTENDS CheckpointMC, Json
VARIABLES hist
GInit == Init /\ hist = <<>>
Mis == \E e \in disk.pt : e \notin disk.opt /\ e > Max0(disk.pt \cap disk.opt)
GNext == \/ Crash /\ hist' = Append(hist, [pc |-> pc, ep |-> ep, mis |-> Mis])
         \/ (Start \/ MissingEval \/ Train \/ Done \/ Lr1 \/ PtTmp \/ Pt \/ OptTmp \/ Opt \/ OptDel \/ Eval \/ DelPt \/ DelOpt \/ CleanEnd) /\ UNCHANGED hist
GSpec == GInit /\ [][GNext]_<<vars, hist>>
Emit == (pc = "done" /\ Len(hist) = MaxCrash) => PrintT(ToJson([k |-> "BEH", h |-> hist]))
=============================================================================
