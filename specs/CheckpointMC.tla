---------------------------- MODULE CheckpointMC ----------------------------
(* The checkpointing protocol, one action per durable file operation; a crash may     *)
(* happen between any two. Parameters are abstracted to "the correct ones of epoch e" *)
(* (a number) or Wrong.                                                               *)
EXTENDS Checkpoint
CONSTANTS NEp, Interval, KeepLast, MaxCrash
VARIABLES disk, pc, ep, p, o, crashes, durable, failed
vars == <<disk, pc, ep, p, o, crashes, durable, failed>>
Wrong == -1
Cfg == [interval |-> Interval]
Ep == 1..NEp
Mem0 == /\ pc = "start" /\ ep = 0 /\ p = 0 /\ o = 0
Init == /\ disk = [pt |-> {}, opt |-> {}, pttmp |-> 0, opttmp |-> 0, train |-> {}, dev |-> {}]
        /\ Mem0 /\ crashes = 0 /\ durable = 0 /\ failed = FALSE
MemTrain == ep   \* in memory the scores of all epochs so far are known
\* restart: newest epoch with model and optimizer state
Start == /\ pc = "start"
         /\ LET s == Max0(disk.pt \cap disk.opt)
                missing == \E e \in 1..s : (e \notin disk.train) \/ (e < s /\ e \notin disk.dev)
            IN /\ ep' = s /\ p' = s /\ o' = s
               /\ failed' = missing
               /\ pc' = IF s > 0 /\ s \notin disk.dev THEN "missing-eval" ELSE "next"
         /\ UNCHANGED <<disk, crashes, durable>>
MissingEval == /\ pc = "missing-eval" /\ pc' = "next" /\ disk' = [disk EXCEPT !.dev = @ \cup {ep}]
               /\ UNCHANGED <<ep, p, o, crashes, durable, failed>>
Train == /\ pc = "next" /\ ep < NEp
         /\ ep' = ep + 1 /\ durable' = Max0({x \in 1..ep : Saveable(x, Cfg, NEp)} \cup {durable})
         /\ p' = (IF p = ep /\ o = ep THEN ep + 1 ELSE Wrong) /\ o' = (IF p = ep /\ o = ep THEN ep + 1 ELSE Wrong)
         /\ pc' = "lr1" /\ UNCHANGED <<disk, crashes, failed>>
Done == pc = "next" /\ ep = NEp /\ pc' = "done" /\ UNCHANGED <<disk, ep, p, o, crashes, durable, failed>>
Lr1 == /\ pc = "lr1" /\ disk' = [disk EXCEPT !.train = @ \cup {ep}]
       /\ pc' = (IF Saveable(ep, Cfg, NEp) THEN "pttmp" ELSE "eval") /\ UNCHANGED <<ep, p, o, crashes, durable, failed>>
PtTmp == pc = "pttmp" /\ disk' = [disk EXCEPT !.pttmp = ep] /\ pc' = "pt" /\ UNCHANGED <<ep, p, o, crashes, durable, failed>>
Pt == pc = "pt" /\ disk' = [disk EXCEPT !.pttmp = 0, !.pt = @ \cup {ep}] /\ pc' = "opttmp" /\ UNCHANGED <<ep, p, o, crashes, durable, failed>>
OptTmp == pc = "opttmp" /\ disk' = [disk EXCEPT !.opttmp = ep] /\ pc' = "opt" /\ UNCHANGED <<ep, p, o, crashes, durable, failed>>
Opt == pc = "opt" /\ disk' = [disk EXCEPT !.opttmp = 0, !.opt = @ \cup {ep}] /\ pc' = "optdel" /\ UNCHANGED <<ep, p, o, crashes, durable, failed>>
OptDel == pc = "optdel" /\ disk' = [disk EXCEPT !.opt = @ \ {ep - 2}] /\ pc' = "eval" /\ UNCHANGED <<ep, p, o, crashes, durable, failed>>
Eval == pc = "eval" /\ disk' = [disk EXCEPT !.dev = @ \cup {ep}] /\ pc' = "clean" /\ UNCHANGED <<ep, p, o, crashes, durable, failed>>
\* clean-up deletes, one file at a time, any models except the last ones
\* and except the one from which the training would resume (a newer model may lack its
\* optimizer state after a crash; without this exception TLC finds the loss of all work)
Recent == {e \in disk.pt : Cardinality({x \in disk.pt : x > e}) < KeepLast} \cup {Max0(disk.pt \cap disk.opt)}
DelPt == /\ pc = "clean" /\ \E e \in disk.pt \ Recent : disk' = [disk EXCEPT !.pt = @ \ {e}]
         /\ pc' = "clean" /\ UNCHANGED <<ep, p, o, crashes, durable, failed>>
DelOpt == /\ pc = "clean" /\ \E e \in disk.opt \ disk.pt : disk' = [disk EXCEPT !.opt = @ \ {e}]
          /\ pc' = "clean" /\ UNCHANGED <<ep, p, o, crashes, durable, failed>>
CleanEnd == pc = "clean" /\ pc' = "next" /\ UNCHANGED <<disk, ep, p, o, crashes, durable, failed>>
Crash == /\ pc \notin {"start", "done"} /\ crashes < MaxCrash /\ crashes' = crashes + 1
         /\ pc' = "start" /\ ep' = 0 /\ p' = 0 /\ o' = 0 /\ UNCHANGED <<disk, durable, failed>>
Next == Start \/ MissingEval \/ Train \/ Done \/ Lr1 \/ PtTmp \/ Pt \/ OptTmp \/ Opt \/ OptDel \/ Eval \/ DelPt \/ DelOpt \/ CleanEnd \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
NotWrong == p # Wrong /\ o # Wrong /\ p = o
NoWorkLost == Max0(disk.pt \cap disk.opt) >= durable
RestartWorks == ~failed
Finishes == <>(pc = "done")
=============================================================================
