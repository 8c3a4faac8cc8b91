-------------------------------- MODULE FJGen --------------------------------
(* Generates the environment behaviours of fork-join calls: the outcome of    *)
(* every function, and the order in which they end. The harness executes each *)
(* of them with every function of the library it makes sense for.             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS OutFile, FullN, \* all outcomes up to this number of functions
          MaxN, MaxSpecial \* and with so many special ones up to that number

Perms(n) == { p \in [1 .. n -> 0 .. n - 1] : \A i, j \in 1 .. n : i # j => p[i] # p[j] }
Outs(n) == [1 .. n -> {"t", "f", "p"}] \cup [1 .. n -> {"t", "s", "p"}]
Special(o) == Cardinality({ i \in DOMAIN o : o[i] # "t" })
Chosen(n) == IF n <= FullN THEN Outs(n) ELSE { o \in Outs(n) : Special(o) <= MaxSpecial }
Cases == UNION { { [n |-> n, out |-> o, order |-> p] : o \in Chosen(n), p \in Perms(n) } : n \in 0 .. MaxN }
ASSUME JsonSerialize(OutFile, SetToSeq(Cases))
==============================================================================
