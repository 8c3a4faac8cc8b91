------------------------------ MODULE RangeAbs ------------------------------
(* Abstract specification of the division of a range into batches (C04).     *)
(* A range of the given size is low .. low+size-1; batches are given as       *)
(* pairs <<lo, hi>> relative to low, in increasing order of lo.               *)
EXTENDS Integers, Sequences

\* contiguous, non-overlapping, together the whole range
Partition(b, size) ==
  /\ Len(b) > 0
  /\ b[1][1] = 0 /\ b[Len(b)][2] = size
  /\ \A i \in 1 .. Len(b) - 1 : b[i][2] = b[i + 1][1]
NonEmpty(b, size) ==
  IF size = 0 THEN Len(b) = 1 /\ b[1][1] = b[1][2]
  ELSE \A i \in 1 .. Len(b) : b[i][1] < b[i][2]
MinOf(x, y) == IF x < y THEN x ELSE y
\* no more batches than asked for, and not far less parallelism
Enough(b, size, n) == n > 0 /\ size > 0 => Len(b) <= n /\ 2 * Len(b) >= MinOf(n, size)
BatchesOK(b, size, n) == Partition(b, size) /\ NonEmpty(b, size) /\ Enough(b, size, n)

\* invalid arguments: the call panics and invokes nothing
Invalid(size, n) == size < 0 \/ n < 0
=============================================================================
