----------------------------- MODULE RangeImpl -----------------------------
(* The algorithm of all range functions: ComputeNofBatches, then recursive    *)
(* halving of the number of batches. Checked against RangeAbs for all sizes   *)
(* up to MaxSize and all n up to MaxN (one state each).                       *)
EXTENDS RangeAbs, TLC
CONSTANTS MaxSize, MaxN, Defect

NofBatches(size, n, procs) ==
  IF size = 0 THEN 1 ELSE MinOf(IF n = 0 THEN 2 * procs ELSE n, size)

RECURSIVE Recur(_, _, _)
Recur(low, high, n) ==
  IF n = 1 THEN << <<low, high>> >>
  ELSE LET batchSize == IF Defect = "floor" THEN (high - low) \div n ELSE ((high - low - 1) \div n) + 1
           half == n \div 2
           mid == low + batchSize * half
       IN IF mid >= high THEN << <<low, high>> >>
          ELSE Recur(low, mid, half) \o Recur(mid, high, IF Defect = "half" THEN half + 1 ELSE n - half)

VARIABLES size, n, procs
Init == size \in 0 .. MaxSize /\ n \in 0 .. MaxN /\ procs \in {1, 2, 3, 8}
Next == UNCHANGED <<size, n, procs>>
Spec == Init /\ [][Next]_<<size, n, procs>>
OK == BatchesOK(Recur(0, size, NofBatches(size, n, procs)), size, n)
=============================================================================
