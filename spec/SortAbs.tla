------------------------------- MODULE SortAbs -------------------------------
(* Abstract specification of Sort, StableSort and IsSorted: an acceptor of    *)
(* the invocations of a collection's methods that matter and of the result.   *)
(*                                                                            *)
(* c: [fn: "sort"|"stable"|"is", n: number of elements, key: the keys of the  *)
(*     elements (ranks; NaN ranks lowest), or << >> if they were not recorded]*)
(* Elements are numbered from 0. Collection 0 is the one to be sorted, others *)
(* are created by NewTemp.                                                    *)
EXTENDS Integers, Sequences, FiniteSets

V(cond, p) == IF cond THEN {} ELSE {p}

Init0 == [ act |-> {},      \* invocations in progress
           ret |-> FALSE,   \* the call has returned
           bad |-> {} ]

(* An invocation o of a method: [m, c, i, j, n, sc]                           *)
(*   less: elements i and j of c; swap: likewise; seq: range i .. j-1 of c;   *)
(*   asg: n elements of c from i on := those of sc from j on;                 *)
(*   new, mk, len: NewTemp, Assign, Len (do not use elements)                 *)
Writes(o) == CASE o.m = "swap" -> {<<o.c, o.i, o.i + 1>>, <<o.c, o.j, o.j + 1>>}
               [] o.m = "seq"  -> {<<o.c, o.i, o.j>>}
               [] o.m = "asg"  -> {<<o.c, o.i, o.i + o.n>>}
               [] OTHER -> {}
Reads(o) == CASE o.m = "less" -> {<<o.c, o.i, o.i + 1>>, <<o.c, o.j, o.j + 1>>}
              [] o.m = "asg"  -> {<<o.sc, o.j, o.j + o.n>>}
              [] OTHER -> {}
Overlap(x, y) == x[1] = y[1] /\ x[2] < y[3] /\ y[2] < x[3]
Meet(X, Y) == \E x \in X : \E y \in Y : Overlap(x, y)
Conflict(o, p) == \/ Meet(Writes(o), Writes(p) \cup Reads(p))
                  \/ Meet(Reads(o), Writes(p))

(* w[i]: number that element i after the call had before the call             *)
Permutation(w, n) == /\ Len(w) = n
                     /\ { w[i] : i \in 1 .. n } = 0 .. (n - 1)
InOrder(key, w) == \A i \in 1 .. Len(w) - 1 : key[w[i] + 1] <= key[w[i + 1] + 1]
Stable(key, w) == \A i \in 1 .. Len(w) - 1 : key[w[i] + 1] = key[w[i + 1] + 1] => w[i] < w[i + 1]

(* d: positions of elements that are less than their predecessor              *)
ReturnBad(c, e) ==
  IF c.fn = "is" THEN V(e.r = (e.d = << >>), "C10")
  ELSE IF c.key = << >> THEN {}
  ELSE V(Permutation(e.w, c.n) /\ InOrder(c.key, e.w), "C08")
       \cup V(c.fn = "stable" => Permutation(e.w, c.n) /\ Stable(c.key, e.w), "C09")

Use(s, o) == V(~ s.ret /\ ~ \E p \in s.act : Conflict(o, p), "C11")

Step(c, s, e) ==
  CASE e.e = "Begin" -> [s EXCEPT !.act = @ \cup {e}, !.bad = @ \cup Use(s, e)]
    [] e.e = "End" -> [s EXCEPT !.act = { o \in @ : o.id # e.id }]
    \* an invocation that began and ended at once
    [] e.e = "Touch" -> [s EXCEPT !.bad = @ \cup Use(s, e)]
    [] e.e = "Ret" -> [s EXCEPT !.ret = TRUE, !.bad = @ \cup ReturnBad(c, e) \cup V(s.act = {}, "C11")]
    \* many calls on collections with a single descent each, at one of the
    \* positions e.lo .. e.hi (0: no descent); e.yes are the positions for which
    \* the result was true
    [] e.e = "Singles" -> [s EXCEPT !.bad = @ \cup V(e.yes = (IF e.lo = 0 /\ e.hi >= 0 THEN <<0>> ELSE << >>), "C10")]
    \* the different results of sorting rotations of 0 .. n-1
    [] e.e = "Rotations" ->
         [s EXCEPT !.bad = @ \cup V(\A i \in 1 .. Len(e.outs) :
                                     Permutation(e.outs[i], c.n) /\ InOrder([k \in 1 .. c.n |-> k], e.outs[i]), "C08")]
    [] e.e = "Leak" -> [s EXCEPT !.bad = @ \cup {"C25"}]
    [] e.e = "Race" -> [s EXCEPT !.bad = @ \cup {"C11"}]
    [] e.e \in {"Hang", "Crash", "Panic"} -> [s EXCEPT !.bad = @ \cup {"C08", "C09", "C10", "C11"} \cup V(e.e # "Hang", "C25")]
    [] OTHER -> s
=============================================================================
