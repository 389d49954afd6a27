------------------------------ MODULE ForwardMC ------------------------------
(* Forwarding with batches which may run out of memory: a failed batch is split *)
(* in two halves which are put back in front.  Every sequence is processed      *)
(* exactly once and the order is kept, whatever fits into memory when.          *)
EXTENDS Forward
CONSTANTS NSeq, MaxB, MaxOom
VARIABLES nxt, queue, done, ooms, failed
vars == <<nxt, queue, done, ooms, failed>>
Init == nxt = 1 /\ queue = <<>> /\ done = <<>> /\ ooms = 0 /\ failed = FALSE
Fetch == queue = <<>> /\ nxt <= NSeq /\ \E b \in 1..MaxB : nxt + b - 1 <= NSeq /\ queue' = <<[i \in 1..b |-> nxt + i - 1]>> /\ nxt' = nxt + b /\ UNCHANGED <<done, ooms, failed>>
Run == queue # <<>> /\ ~failed /\ done' = done \o Head(queue) /\ queue' = Tail(queue) /\ UNCHANGED <<nxt, ooms, failed>>
Oom == /\ queue # <<>> /\ ~failed /\ ooms < MaxOom /\ ooms' = ooms + 1
       /\ LET b == Head(queue)
              h == (Len(b) + 1) \div 2
          IN IF Len(b) >= 2 THEN queue' = <<SubSeq(b, 1, h), SubSeq(b, h + 1, Len(b))>> \o Tail(queue) /\ UNCHANGED failed
             ELSE failed' = TRUE /\ UNCHANGED queue
       /\ UNCHANGED <<nxt, done>>
Next == Fetch \/ Run \/ Oom
Spec == Init /\ [][Next]_vars /\ WF_vars(Fetch) /\ WF_vars(Run)
InOrder == done = [i \in 1..Len(done) |-> i]
All == <>(failed \/ Len(done) = NSeq)
=============================================================================
