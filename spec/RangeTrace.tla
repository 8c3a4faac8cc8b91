----------------------------- MODULE RangeTrace -----------------------------
(* Validates recorded calls against RangeAbs. A trace holds, for one choice   *)
(* of size, n and GOMAXPROCS, the different results over all range functions  *)
(* of the three packages: [b: batches, p: panicked].                          *)
EXTENDS RangeAbs, Json, TLC
CONSTANTS TraceFile, Props
Traces == ndJsonDeserialize(TraceFile)
VARIABLE t
TInit == t \in 1 .. Len(Traces)
TNext == UNCHANGED t
TSpec == TInit /\ [][TNext]_t
CallOK(c, e) == IF Invalid(c.size, c.n) THEN e.p /\ e.b = <<>>
                ELSE ~ e.p /\ BatchesOK(e.b, c.size, c.n)
Accepted == LET x == Traces[t] IN
  /\ \A i \in 1 .. Len(x.ev) : CallOK(x.cfg, x.ev[i])
  /\ Len(x.ev) = 1     \* the three packages use the same batches
Alias == [ t |-> t, id |-> Traces[t].id, l |-> 1, bad |-> {"C04"} ]
=============================================================================
