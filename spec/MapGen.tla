-------------------------------- MODULE MapGen -------------------------------
(* Generates concurrent programs on one key: the entry before (0: none,       *)
(* 1: nil, 2: a value), and one operation for each of two or three clients.   *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS OutFile, MaxClients
Kinds == {"load", "direct", "ls", "loc", "locp", "del", "ds", "doc", "docp", "mod", "modd", "modp"}
Cases == UNION { { [init |-> i, ops |-> o] : i \in 0 .. 2, o \in [1 .. n -> Kinds] } : n \in 2 .. MaxClients }
ASSUME JsonSerialize(OutFile, SetToSeq(Cases))
==============================================================================
