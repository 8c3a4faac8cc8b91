------------------------------ MODULE SourceAbs ------------------------------
(* Abstract specification of data sources and of the division of their data   *)
(* into batches (C22).                                                        *)
(*                                                                            *)
(* c: [data: the elements, as numbers; known: the total size is known;        *)
(*     nb: number of batches asked for, or 0; inc, max: variable batch size   *)
(*     as asked for, or 0; exact: batches are filled as long as there is data;   *)
(*     single: batches are single elements; n: number of elements, if there   *)
(*     are too many for data]                                                 *)
EXTENDS Integers, Sequences, FiniteSets

V(cond, p) == IF cond THEN {} ELSE {p}
Min2(x, y) == IF x < y THEN x ELSE y
Total(c) == IF "n" \in DOMAIN c THEN c.n ELSE Len(c.data)
Ceil(x, y) == IF x = 0 THEN 0 ELSE ((x - 1) \div y) + 1

Init0 == [ bat |-> << >>,     \* batches received, in order: [q, d]
           req |-> << >>,     \* sizes asked for
           dry |-> FALSE,     \* the source had nothing more to offer
           nof |-> 0,         \* number of batches set so far
           can |-> FALSE,     \* the run has been cancelled, or has failed
           err |-> FALSE,     \* the source has an error
          faulty |-> FALSE,
          more |-> 0,        \* requests since the source returned an error
           bad |-> {} ]

Inf == 1073741824
Max(c) == IF c.max > 0 THEN c.max ELSE Inf
\* the size of the kth batch asked for, if the increment is known
Size(c, inc, k) == IF inc > Inf \div (k + 1) THEN Max(c) ELSE Min2(k * inc, Max(c))

\* a request for n elements is right, given those before
ReqOK(c, req, n) ==
  LET k == Len(req) + 1 IN
  IF c.known THEN n >= 1 /\ (c.nb > 0 => n <= Min2(Inf, IF Total(c) = 0 THEN 1 ELSE Ceil(Total(c), c.nb)))
  ELSE IF c.inc > 0 THEN \/ n = Size(c, c.inc, k)
                         \/ c.max = 0 /\ n <= Size(c, c.inc, k) /\ n >= 1048576  \* some large default
  ELSE IF k = 1 THEN n >= 1 /\ n <= Max(c)
  ELSE n = Size(c, req[1], k) \/ (req[1] = Max(c) /\ n = Max(c))

BatchOK(c, d) ==
  /\ d # << >>
  /\ c.single => Len(d) = 1
  /\ (c.known /\ c.nb > 0) => Len(d) <= Ceil(Len(c.data), c.nb)
  /\ (~ c.known /\ c.max > 0) => Len(d) <= c.max

HasQ(b, q) == \E i \in 1 .. Len(b) : b[i].q = q
OfQ(b, q) == b[CHOOSE i \in 1 .. Len(b) : b[i].q = q].d
RECURSIVE Concat(_, _)
Concat(b, m) == IF m = 0 THEN << >> ELSE Concat(b, m - 1) \o OfQ(b, m - 1)

Whole(c, b) ==
  LET m == Len(b) IN
  /\ \A q \in 0 .. (m - 1) : HasQ(b, q)
  /\ Concat(b, m) = c.data
Filled(c, b) ==
  /\ c.exact /\ c.known /\ c.nb > 0 => Len(b) <= c.nb
  /\ c.exact /\ ~ c.known /\ c.inc > 0 =>
    \A q \in 0 .. (Len(b) - 1) :
       IF q = Len(b) - 1 THEN Len(OfQ(b, q)) <= Size(c, c.inc, q + 1) ELSE Len(OfQ(b, q)) = Size(c, c.inc, q + 1)

(* A run with very much data: sizes asked for (if known: e.reqs) and of the   *)
(* batches (e.lens); e.ok: the batches are the data; e.again: they still were *)
(* after the run.                                                             *)
Big(c, s, e) ==
  LET m == Len(e.lens)
      inc == IF c.inc > 0 THEN c.inc ELSE e.lens[1]
      ok == /\ e.ok /\ e.again /\ ~ e.err
            /\ \A k \in 1 .. m : /\ e.lens[k] > 0
                                /\ (c.single => e.lens[k] = 1)
                                /\ ((c.known /\ c.nb > 0) => e.lens[k] <= Ceil(c.n, c.nb))
                                /\ ((~ c.known /\ c.max > 0) => e.lens[k] <= c.max)
            /\ (c.exact /\ c.known /\ c.nb > 0) => m <= c.nb
            /\ (c.exact /\ ~ c.known) => \A k \in 1 .. m :
                 IF k = m THEN e.lens[k] <= Size(c, inc, k) ELSE e.lens[k] = Size(c, inc, k)
            /\ \A k \in 1 .. Len(e.reqs) : k > 40 \/ ReqOK(c, SubSeq(e.reqs, 1, k - 1), e.reqs[k])
  IN [s EXCEPT !.bad = @ \cup V(ok, "C22")]

Step(c, s, e) ==
  CASE e.e = "Big" -> Big(c, s, e)
    [] e.e = "Nof" -> \* NofBatches(e.n) returned e.r
         [s EXCEPT !.nof = IF e.n >= 1 THEN e.n ELSE IF @ = 0 THEN e.r ELSE @,
                   !.bad = @ \cup V(e.r >= 1 /\ (e.n >= 1 => e.r = e.n) /\ (e.n < 1 /\ s.nof > 0 => e.r = s.nof), "C22")]
    [] e.e = "Req" -> [s EXCEPT !.req = Append(@, e.n),
                                !.more = IF s.err /\ ~ s.faulty THEN @ + 1 ELSE @,
                                !.bad = @ \cup V(~ s.dry /\ ReqOK(c, s.req, e.n), "C22")
                                          \cup V(s.err /\ ~ s.faulty => s.more = 0, "C21")]
    [] e.e = "Got" -> [s EXCEPT !.dry = e.n = 0]
    [] e.e = "Batch" ->
         [s EXCEPT !.bat = Append(@, [q |-> e.q, d |-> e.d]),
                   !.bad = @ \cup V(~ HasQ(s.bat, e.q) /\ BatchOK(c, e.d), "C22")]
    \* the data of a batch, looked at again after the run
    [] e.e = "Again" -> [s EXCEPT !.bad = @ \cup V(HasQ(s.bat, e.q) /\ OfQ(s.bat, e.q) = e.d, "C22")]
    [] e.e = "Cancel" -> [s EXCEPT !.can = TRUE]
    [] e.e = "Fail" -> [s EXCEPT !.can = TRUE, !.err = TRUE]
    \* the source is going to fail at some point
    [] e.e = "Faulty" -> [s EXCEPT !.can = TRUE, !.err = TRUE, !.faulty = TRUE]
    \* e.err: the pipeline reports the error of the source
    [] e.e = "Ret" ->
         [s EXCEPT !.bad = @ \cup (IF s.can THEN {} ELSE V(Whole(c, s.bat) /\ Filled(c, s.bat), "C22"))
                             \cup V(e.err = (IF s.err THEN "src" ELSE "none"), "C21")]
    [] e.e = "Hang" -> [s EXCEPT !.bad = @ \cup {"C19", "C21", "C22"}]
    [] e.e \in {"Crash", "Panic"} -> [s EXCEPT !.bad = @ \cup {"C19", "C21", "C22"}]
    [] OTHER -> s
=============================================================================
