----------------------------- MODULE FilterAbs -----------------------------
(* Abstract specification of the predefined filters of pipelines (C23, C24).  *)
(*                                                                            *)
(* c: [st: << stages in chain order >>, ordn: << node is ordered >>,          *)
(*     bat: << the source's batches >>, known: the source's size is known,    *)
(*     err: the pipeline must fail]                                           *)
(* stage: [k, n: limit, number of elements to skip, can: cancels when it is   *)
(*         known or reached, node: number of its node, grp: that of its group of    *)
(*         nodes that are merged (neighbouring ordered and sequential ones),  *)
(*         init: previous content *)
(*         of a slice, o: outcomes of a predicate for batches 0, 1, ...]      *)
(* k: "limit", "skip", "count", "slice"; "every", "notevery", "some",         *)
(*    "notany"; filters of the harness: "pass", "odd" (keeps odd elements),   *)
(*    "dup" (every element twice), "alt" (drops every other batch), "drop"    *)
(*    (drops everything), "size" (looks at the announced size); and           *)
(*    "bad" (a Slice without a settable slice).                               *)
(* The flow at stage i is the sequence of batches that it passes on; elements *)
(* are numbers that occur once in the source. Batches are numbered from 0.    *)
EXTENDS Integers, Sequences, FiniteSets

V(cond, p) == IF cond THEN {} ELSE {p}
Min2(x, y) == IF x < y THEN x ELSE y
Max2(x, y) == IF x > y THEN x ELSE y
Ceiling(x, y) == ((x + y - 1) \div y)
N(c) == Len(c.st)
PredKinds == {"every", "notevery", "some", "notany"}
Preds(c) == { i \in 1 .. N(c) : c.st[i].k \in PredKinds }
Probes(c) == Preds(c) \cup { i \in 1 .. N(c) : c.st[i].k = "pass" }
Tag(c, i) == IF i \in Preds(c) THEN "C24" ELSE "C23"

RECURSIVE Dup(_)
Dup(d) == IF d = << >> THEN << >> ELSE <<d[1], d[1]>> \o Dup(Tail(d))
\* what stage x makes of batch q with data d; seen elements came before
Apply(x, q, d, seen) ==
  CASE x.k = "limit" -> IF x.n < 0 THEN d ELSE SubSeq(d, 1, Max2(0, Min2(Len(d), x.n - seen)))
    [] x.k = "skip"  -> IF x.n < 0 THEN << >> ELSE SubSeq(d, Max2(0, x.n - seen) + 1, Len(d))
    [] x.k = "odd"   -> SelectSeq(d, LAMBDA y : y % 2 = 1)
    [] x.k = "dup"   -> Dup(d)
    [] x.k = "alt"   -> IF q % 2 = 1 THEN << >> ELSE d
    [] x.k = "drop"  -> << >>
    [] OTHER -> d
\* the batch through all stages
RECURSIVE Through(_, _, _, _, _)
Through(c, s, i, q, d) == \* << data after stage i, after stage i + 1, ... >>
  IF i > N(c) THEN << >>
  ELSE LET r == Apply(c.st[i], q, d, s.tot[i - 1]) IN <<r>> \o Through(c, s, i + 1, q, r)
RECURSIVE Flows(_, _)
Flows(c, s) ==
  IF Len(s.flow[0]) = Len(c.bat) THEN s
  ELSE LET q == Len(s.flow[0])
           r == <<c.bat[q + 1]>> \o Through(c, s, 1, q, c.bat[q + 1])
       IN Flows(c, [flow |-> [i \in 0 .. N(c) |-> Append(s.flow[i], r[i + 1])],
                    tot |-> [i \in 0 .. N(c) |-> s.tot[i] + Len(r[i + 1])]])

Init0(c) ==
  LET fl == Flows(c, [flow |-> [i \in 0 .. N(c) |-> << >>], tot |-> [i \in 0 .. N(c) |-> 0]]) IN
  [ flow |-> fl.flow,                     \* flow[0]: the batches of the source
    tot  |-> fl.tot,                      \* number of elements in flow[i]
    got  |-> 0,                           \* number of batches fetched
    inv  |-> [i \in 1 .. N(c) |-> {}],    \* batches on which probe i was invoked
    size |-> [i \in 1 .. N(c) |-> -1],    \* announced size
    bad  |-> {} ]

-----------------------------------------------------------------------------
\* outcome of predicate i on batch q
Outcome(c, i, q) == c.st[i].o[Min2(q + 1, Len(c.st[i].o))]
\* this outcome decides the result
Decides(c, i, q) == IF c.st[i].k \in {"every", "notevery"} THEN ~ Outcome(c, i, q) ELSE Outcome(c, i, q)
Value(c, i, Q) == LET decided == \E q \in Q : Decides(c, i, q) IN
                  IF c.st[i].k \in {"every", "notany"} THEN ~ decided ELSE decided

\* the first m batches of a flow, one after the other
RECURSIVE Concat(_, _)
Concat(f, m) == IF m = 0 THEN << >> ELSE Concat(f, m - 1) \o f[m]
IsLimit(c, i) == c.st[i].k = "limit" /\ c.st[i].n >= 0
Cancelling(c) == { i \in 1 .. N(c) : c.st[i].can /\ (IsLimit(c, i) \/ i \in Preds(c)) }
\* stage i may have, or must have cancelled the pipeline if nothing else did
May(c, s, i) == IF IsLimit(c, i) THEN Len(Concat(s.flow[i - 1], s.got)) >= c.st[i].n ELSE \E q \in s.inv[i] : Decides(c, i, q)
Must(c, s, i) == IF IsLimit(c, i) THEN s.tot[i - 1] > c.st[i].n ELSE \E q \in s.inv[i] : Decides(c, i, q)

\* w consists of whole batches of the flow with numbers in Q, all of those in R,
\* in any order, none of them twice
RECURSIVE Parse(_, _, _, _)
Parse(f, w, Q, R) ==
  IF w = << >> THEN \A q \in R : f[q + 1] = << >>
  ELSE LET M == { q \in Q : f[q + 1] # << >> /\ f[q + 1][1] = w[1] } IN
       /\ M # {}
       /\ LET q == CHOOSE q \in M : TRUE
              l == Len(f[q + 1])
          IN l <= Len(w) /\ SubSeq(w, 1, l) = f[q + 1] /\ Parse(f, SubSeq(w, l + 1, Len(w)), Q \ {q}, R \ {q})

All(s) == 0 .. (Len(s.flow[0]) - 1)
\* Batches that stage i has certainly seen in a cancelled run: if one Limit is
\* the only stage that cancels, it and everything up to the end of its group has
\* seen all batches up to the one that reached the limit.
Certain(c, s, i) ==
  LET C == Cancelling(c) IN
  IF Cardinality(C) # 1 THEN {}
  ELSE LET j == CHOOSE j \in C : TRUE IN
       IF ~ IsLimit(c, j) \/ c.st[j].n = 0 \/ c.st[i].grp > c.st[j].grp THEN {}
       ELSE { q \in All(s) : Len(Concat(s.flow[j - 1], q)) < c.st[j].n }

SliceOK(c, s, i, r, all) ==
  LET f == s.flow[i - 1]
      init == c.st[i].init
      R == IF all THEN All(s) ELSE Certain(c, s, i)
      w == SubSeq(r, Len(init) + 1, Len(r))
  IN /\ Len(r) >= Len(init) /\ SubSeq(r, 1, Len(init)) = init
     /\ IF c.ordn[c.st[i].node]
        THEN \E m \in (IF R = {} THEN 0 ELSE Cardinality(R)) .. Len(f) : w = Concat(f, m)
        ELSE Parse(f, w, All(s), R)
CountOK(c, s, i, r, all) ==
  LET f == s.flow[i - 1] IN
  IF all THEN r = s.tot[i - 1]
  ELSE r >= Len(Concat(f, Cardinality(Certain(c, s, i)))) /\ (r <= s.tot[i - 1] \/ c.known)

ResultBad(c, s, x, all) ==
  LET i == x.f IN
  CASE c.st[i].k = "count" -> V(CountOK(c, s, i, x.r, all), "C23")
    [] c.st[i].k = "slice" -> V(SliceOK(c, s, i, x.r, all), "C23")
    [] OTHER -> V(x.r = Value(c, i, s.inv[i]), "C24")

\* the run is over; e.ctx: its context was done then, e.err: it has an error;
\* e.res: << [f, r] >> the results
Return(c, s, e) ==
  LET all == ~ e.ctx IN
  IF e.err \/ c.err THEN V(e.err = c.err, "C23")
  ELSE V(all => \A i \in Probes(c) \ Preds(c) : s.inv[i] = All(s), "C23")
       \cup V(all => \A i \in Preds(c) : s.inv[i] = All(s), "C24")
       \cup UNION { V(e.ctx \/ ~ Must(c, s, i), Tag(c, i)) : i \in Cancelling(c) }
       \cup V(e.ctx => \E i \in Cancelling(c) : May(c, s, i), IF \E i \in Cancelling(c) : c.st[i].k = "limit" THEN "C23" ELSE "C24")
       \cup V(all => \A i \in 1 .. N(c) : s.size[i] < 0 \/ s.size[i] = s.tot[i - 1], "C23")
       \cup UNION { ResultBad(c, s, e.res[x], all) : x \in 1 .. Len(e.res) }

\* probe e.f was invoked on batch e.q with data e.d; e.ctx: the context was done
InvokedBad(c, s, e) ==
  LET i == e.f IN
  V(/\ e.q < s.got /\ e.q \notin s.inv[i]
    /\ e.q \in All(s) => e.d = s.flow[i - 1][e.q + 1], Tag(c, i))
  \cup V(e.ctx => \E j \in Cancelling(c) : May(c, s, j), IF Cancelling(c) \subseteq Preds(c) THEN "C24" ELSE "C23")
  \* as soon as it is known, or reached
  \cup (IF i > 1 /\ i - 1 \in Cancelling(c) /\ c.st[i - 1].node = c.st[i].node
        THEN V(((i - 1) \in Preds(c) /\ Decides(c, i - 1, e.q)) => e.ctx, "C24") ELSE {})

(* A run with very many batches of c.per elements each, c.total in all        *)
(* (1, 2, ...), or no end of them. Behind stage i, elements lo + 1 .. hi are  *)
(* left. e.got: number of batches fetched; results e.res: counts, lengths or  *)
(* sizes r, outcomes r; ok: consecutive resp. distinct, and in their batches; *)
(* found: how often the predicate found its element (c.st[f].mark).           *)
RECURSIVE Window(_, _)
Window(c, i) ==
  IF i = 0 THEN [lo |-> 0, hi |-> c.total]
  ELSE LET w == Window(c, i - 1)
           x == c.st[i]
       IN CASE x.k = "limit" /\ x.n >= 0 -> [w EXCEPT !.hi = Min2(w.hi, w.lo + x.n)]
            [] x.k = "skip" -> [w EXCEPT !.lo = Min2(w.hi, w.lo + x.n)]
            [] OTHER -> w
BigIn(w, k) == w.lo < k /\ k <= w.hi
BigMust(c, i) == LET w == Window(c, i - 1) IN
  IF IsLimit(c, i) THEN w.hi - w.lo > c.st[i].n ELSE BigIn(w, c.st[i].mark)
BigMay(c, i, got) == LET w == Window(c, i - 1)
                         h == Min2(w.hi, got * c.per)
                     IN IF IsLimit(c, i) THEN c.st[i].n = 0 \/ h - w.lo >= c.st[i].n
                        ELSE BigIn([w EXCEPT !.hi = h], c.st[i].mark)
\* at least so many elements got to stage i in a cancelled run, see Certain
BigSeen(c, i) ==
  LET C == Cancelling(c)
      w == Window(c, i - 1)
  IN IF Cardinality(C) # 1 THEN 0
     ELSE LET j == CHOOSE j \in C : TRUE
              l == Window(c, j - 1).lo + c.st[j].n
          IN IF ~ IsLimit(c, j) \/ c.st[j].n = 0 \/ c.st[i].grp > c.st[j].grp THEN 0
             ELSE Max2(0, Min2(w.hi, Ceiling(l, c.per) * c.per) - w.lo)
BigResult(c, e, x) ==
  LET i == x.f
      k == c.st[i].k
      w == Window(c, i - 1)
      full == w.hi - w.lo
      all == ~ e.ctx
      some == IF all THEN full ELSE BigSeen(c, i)
      nb == IF c.endless THEN e.got ELSE c.total \div c.per
  IN CASE k = "count" -> x.r >= some /\ ((c.known /\ e.ctx) \/ x.r <= full)
       [] k = "slice" -> /\ x.ok /\ x.r >= some /\ x.r <= full
                         /\ x.r > 0 => x.first > w.lo /\ x.last <= w.hi
                         /\ (c.ordn[c.st[i].node] /\ x.r > 0) => x.first = w.lo + 1
       [] k = "pass" -> /\ x.ok /\ x.r >= some /\ x.r <= full
                        /\ all => x.calls = nb
       [] k = "size" -> (all /\ x.r >= 0) => x.r = full
       [] OTHER -> /\ x.r = (IF k \in {"every", "notany"} THEN x.found = 0 ELSE x.found > 0)
                   /\ x.found <= (IF BigIn(w, c.st[i].mark) THEN 1 ELSE 0)
                   /\ all => x.calls = nb /\ x.found = (IF BigIn(w, c.st[i].mark) THEN 1 ELSE 0)
Big(c, s, e) ==
  LET ctx == IF \E i \in Cancelling(c) : c.st[i].k = "limit" THEN "C23" ELSE "C24" IN
  [s EXCEPT !.bad = @ \cup V(~ e.err, "C23")
    \cup UNION { V(e.ctx \/ ~ BigMust(c, i), Tag(c, i)) : i \in Cancelling(c) }
    \cup V(e.ctx => \E i \in Cancelling(c) : BigMay(c, i, e.got), ctx)
    \cup UNION { V(BigResult(c, e, e.res[x]), Tag(c, e.res[x].f)) : x \in 1 .. Len(e.res) }]

Step(c, s, e) ==
  CASE e.e = "Big" -> Big(c, s, e)
    [] e.e = "Fetched" -> [s EXCEPT !.got = @ + 1]
    [] e.e = "Size" -> [s EXCEPT !.size[e.f] = e.n]
    [] e.e = "In" -> [s EXCEPT !.bad = @ \cup InvokedBad(c, s, e), !.inv[e.f] = @ \cup {e.q}]
    [] e.e = "Ret" -> [s EXCEPT !.bad = @ \cup Return(c, s, e)]
    [] e.e \in {"Hang", "Crash", "Panic", "Race"} -> [s EXCEPT !.bad = @ \cup {"C23", "C24"}]
    [] OTHER -> s
=============================================================================
