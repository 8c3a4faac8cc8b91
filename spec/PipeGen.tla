------------------------------- MODULE PipeGen -------------------------------
(* Generates pipelines: all sequences of up to Full nodes with every kind of  *)
(* node and filter, and longer ones whose nodes have receivers or vanish;     *)
(* each with some numbers of batches, undisturbed or with one disturbance.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS OutFile, Full, Long
K == {"ord", "strict", "seq", "par", "lpar"}
Shapes(W) == { [k |-> k, w |-> w] : k \in K, w \in W }
Seqs == UNION { [1 .. n -> Shapes({"r", "rz", "z", "n"})] : n \in 1 .. Full }
        \cup UNION { [1 .. n -> Shapes({"r", "n"})] : n \in (Full + 1) .. Long }
\* nodes that come to be neighbours, and merge, once the one between them has
\* vanished, and further nodes behind
X(k, w) == [k |-> k, w |-> w]
Merging == { << X(p[1], "r"), X(n, "n"), X(p[2], "r"), X(a, "r"), X(b, "r") >> :
               p \in {<<"par", "par">>, <<"lpar", "lpar">>, <<"strict", "seq">>, <<"strict", "ord">>, <<"strict", "strict">>},
               n \in K, a \in K, b \in K }
Pairs == {<<"par", "par">>, <<"lpar", "lpar">>, <<"seq", "seq">>, <<"ord", "ord">>, <<"ord", "seq">>, <<"seq", "strict">>, <<"strict", "seq">>, <<"strict", "ord">>, <<"strict", "strict">>}
MergeFin == { << X(p[1], w1), X(n, "n"), X(p[2], w2) >> : p \in Pairs, n \in {"ord", "strict", "par", "lpar"}, w1 \in {"rz", "z"}, w2 \in {"r", "rz", "z"} }
\* sequential, ordered and strictly ordered nodes that come to be neighbours,
\* with batches arriving in any order
Late == { << X(f, "r"), X(a, "r"), X(n, "n"), X(b, "r") >> :
            f \in {"par", "lpar"}, a \in {"seq", "ord", "strict"}, n \in {"par", "lpar", "strict", "ord"}, b \in {"seq", "ord", "strict"} }
Cases == { [nodes |-> x, nb |-> 3, trouble |-> t] : x \in Seqs, t \in {"none"} }
         \cup { [nodes |-> x, nb |-> b, trouble |-> t] : x \in { y \in Seqs : Len(y) = 1 }, b \in 0 .. 4, t \in {"none", "cancel", "err", "serr"} }
         \cup { [nodes |-> x, nb |-> 2, trouble |-> t] : x \in { y \in Seqs : Len(y) <= Full }, t \in {"cancel", "err", "serr"} }
         \cup { [nodes |-> x, nb |-> 2, trouble |-> "none"] : x \in Merging \cup MergeFin }
         \cup { [nodes |-> x, nb |-> 3, trouble |-> "none", runs |-> 4] : x \in Late }
ASSUME JsonSerialize(OutFile, SetToSeq(Cases))
==============================================================================
