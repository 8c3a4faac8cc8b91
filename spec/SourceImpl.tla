----------------------------- MODULE SourceImpl -----------------------------
(* The fetch loop of a pipeline on a slice (known size) or on a source that   *)
(* fills its batches (unknown size), checked against SourceAbs for all        *)
(* lengths and settings within bounds.                                        *)
EXTENDS SourceAbs, TLC
CONSTANTS MaxLen, MaxNB, MaxInc, MaxMax, Defect
VARIABLES c, s, pos, size, pc
vars == <<c, s, pos, size, pc>>
DefaultInc == 4

Inc == IF c.inc < 1 THEN DefaultInc ELSE c.inc
Next1(b) == IF Defect # "noMax" /\ b + Inc > Max(c) THEN Max(c) ELSE b + Inc
Init ==
  /\ \E n \in 0 .. MaxLen, k \in BOOLEAN, nb \in 0 .. MaxNB, inc \in 0 .. MaxInc, mx \in 0 .. MaxMax :
       /\ IF k THEN inc = 0 /\ mx = 0 ELSE nb = 0
       /\ c = [data |-> [i \in 1 .. n |-> i], known |-> k, nb |-> nb, inc |-> inc, max |-> mx, exact |-> TRUE, single |-> FALSE]
  /\ s = Init0 /\ pos = 0 /\ size = 0 /\ pc = "size"
N == Len(c.data)
\* the size of the next batch
SizeStep ==
  /\ pc = "size"
  /\ size' = IF c.known THEN LET nb == IF c.nb < 1 THEN 3 ELSE c.nb
                                 b == IF N = 0 THEN 0 ELSE IF Defect = "floor" THEN (N \div nb) ELSE ((N - 1) \div nb) + 1
                             IN IF b = 0 THEN 1 ELSE b
             ELSE Next1(size)
  /\ pc' = "fetch" /\ UNCHANGED <<c, s, pos>>
Fetch ==
  /\ pc = "fetch"
  /\ LET got == Min2(size, N - pos)
         s1 == Step(c, Step(c, s, [e |-> "Req", n |-> size]), [e |-> "Got", n |-> got])
         b == [e |-> "Batch", q |-> Len(s.bat), d |-> SubSeq(c.data, pos + 1, pos + got)]
     IN /\ s' = IF got = 0 THEN Step(c, s1, [e |-> "Ret", err |-> "none"]) ELSE Step(c, s1, b)
        /\ pos' = IF Defect = "skip" /\ got = 3 THEN pos + got + 1 ELSE pos + got
        /\ pc' = IF got = 0 THEN "end" ELSE "size"
  /\ UNCHANGED <<c, size>>
Next == SizeStep \/ Fetch
Spec == Init /\ [][Next]_vars
Safe == s.bad = {}
Progress == pc # "end" => ENABLED Next
=============================================================================
