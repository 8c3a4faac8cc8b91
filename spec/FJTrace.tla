------------------------------- MODULE FJTrace -------------------------------
(* Validates recorded executions against FJAbs. Every trace of the file is   *)
(* an initial state; each step consumes one event.                           *)
EXTENDS FJAbs, Json, TLC, TLCExt

CONSTANTS TraceFile, Props
Traces == ndJsonDeserialize(TraceFile)

VARIABLES t, l, s
vars == <<t, l, s>>

TInit == t \in 1 .. Len(Traces) /\ l = 1 /\ s = Init0
TNext == /\ l <= Len(Traces[t].ev)
         /\ s.bad \cap Props = {}
         /\ s' = Step(Traces[t].cfg, s, Traces[t].ev[l])
         /\ l' = l + 1
         /\ t' = t
TSpec == TInit /\ [][TNext]_vars
Accepted == s.bad \cap Props = {}
\* printed for a rejected trace
Alias == [ t |-> t, id |-> Traces[t].id, l |-> l - 1, bad |-> s.bad \cap Props ]
=============================================================================
