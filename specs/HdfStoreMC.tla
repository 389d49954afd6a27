----------------------------- MODULE HdfStoreMC -----------------------------
(* The write protocol: private temp file, copy next to the destination, rename.   *)
(* Crash anywhere; new writers (fresh or extending) any time after.  A reader     *)
(* must only ever see a content which was complete when its writer closed it.     *)
EXTENDS HdfStore
CONSTANTS NRec, NRuns, Atomic      \* Atomic = FALSE: the (rejected) variant which copies onto the destination
VARIABLES dest, part, buf, pc, k, runs, done, base
vars == <<dest, part, buf, pc, k, runs, done, base>>
Init == dest = <<>> /\ part = <<>> /\ buf = <<>> /\ pc = "idle" /\ k = 0 /\ runs = 0 /\ done = {<<>>} /\ base = <<>>
Open == /\ pc = "idle" /\ runs < NRuns /\ runs' = runs + 1
        /\ (buf' = <<>> /\ dest = <<>>) \/ (dest # <<>> /\ buf' = dest)
        /\ base' = buf' /\ pc' = "write" /\ UNCHANGED <<dest, part, k, done>>
Write == pc = "write" /\ k < NRec /\ k' = k + 1 /\ buf' = Append(buf, k') /\ UNCHANGED <<dest, part, pc, runs, done, base>>
StartClose == pc = "write" /\ Len(buf) > Len(base) /\ pc' = "copy" /\ part' = <<>> /\ done' = done \cup {buf} /\ UNCHANGED <<dest, buf, k, runs, base>>
Copy == /\ pc = "copy" /\ Len(part) < Len(buf) /\ part' = Append(part, buf[Len(part) + 1])
        /\ dest' = IF Atomic THEN dest ELSE part'
        /\ UNCHANGED <<buf, pc, k, runs, done, base>>
Rename == pc = "copy" /\ part = buf /\ dest' = part /\ pc' = "idle" /\ UNCHANGED <<part, buf, k, runs, done, base>>
Crash == pc # "idle" /\ pc' = "idle" /\ UNCHANGED <<dest, part, buf, k, runs, done, base>>
Next == Open \/ Write \/ StartClose \/ Copy \/ Rename \/ Crash
Spec == Init /\ [][Next]_vars
OnlyComplete == dest \in done
Grows == [][dest' # dest => Len(dest') > Len(dest) /\ SubSeq(dest', 1, Len(dest)) = dest]_vars
\* unpadding a padded box loses and invents nothing
Shapes == {<<2, 3>>, <<3, 2>>, <<2, 2, 2>>}
BoxOk == \A sh \in Shapes : \A a \in 0..sh[1], b \in 0..sh[2] :
   LET raw == [i \in 1..Prod(sh) |-> i]
       r == Box(raw, sh, <<a, b>>, 0)
   IN Len(r) = a * b * Prod(SubSeq(sh, 3, Len(sh))) /\ \A i \in 1..Len(r) - 1 : r[i] < r[i + 1]
=============================================================================
