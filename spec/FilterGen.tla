----------------------------- MODULE FilterGen -----------------------------
(* Generates chains of predefined filters, and divisions of the source's data *)
(* into batches (by their sizes).                                             *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS OutFile, MaxN, Long
S(k, n, can, nk, o) == [k |-> k, n |-> n, can |-> can, nk |-> nk, o |-> o]
LS == { S(k, n, FALSE, "ord", << >>) : k \in {"limit", "skip"}, n \in 0 .. MaxN }
CS == { S(k, 0, FALSE, nk, << >>) : k \in {"count", "slice"}, nk \in {"ord", "par", "seq"} }
T == { S(k, 0, FALSE, "par", << >>) : k \in {"odd", "dup", "drop"} }
CL == { S("limit", n, TRUE, "ord", << >>) : n \in 0 .. MaxN }
NK == {"ord", "strict", "seq", "par", "lpar"}
Divisions == { << >>, <<1>>, <<3>>, <<1, 1>>, <<2, 1>>, <<1, 2>>, <<2, 3, 1>>, <<1, 1, 1, 1>> }
Few == { << >>, <<2, 1>>, <<2, 3, 1>>, <<1, 1, 1>> }
Chains == { <<x>> : x \in LS \cup CS }
          \cup { <<x, y>> : x \in LS \cup T, y \in LS \cup CS }
          \cup { <<y, x>> : x \in LS, y \in CS }
LongChains == { <<x, y, z>> : x \in LS \cup T, y \in LS, z \in CS \cup LS }
Cancels == { <<x, z>> : x \in CL, z \in CS } \cup { <<x, y, z>> : x \in CS, y \in CL, z \in CS }
           \cup { <<x, y, z>> : x \in LS, y \in CL, z \in CS }
C(x, d, kn) == [st |-> x, div |-> d, known |-> kn]
Filters == { C(x, d, kn) : x \in Chains \cup Cancels, d \in (IF Long THEN Divisions ELSE Few), kn \in BOOLEAN }
           \cup (IF Long THEN { C(x, d, kn) : x \in LongChains, d \in Few, kn \in BOOLEAN } ELSE {})
Vectors(n) == [1 .. n -> BOOLEAN]
Preds == { C(<< S(k, 0, can, nk, o) >>, [i \in 1 .. Len(o) |-> 1], TRUE) :
             k \in {"every", "notevery", "some", "notany"}, can \in BOOLEAN, nk \in NK, o \in UNION { Vectors(n) : n \in 0 .. 3 } }
ASSUME JsonSerialize(OutFile, << SetToSeq(Filters), SetToSeq(Preds) >>)
=============================================================================
