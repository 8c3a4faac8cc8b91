------------------------------- MODULE FJAbs -------------------------------
(* Abstract specification of fork-join calls: the task, range and reduce     *)
(* functions of the packages parallel, speculative and sequential, and the   *)
(* split-wise predicates and reductions of parallel maps.                    *)
(*                                                                           *)
(* A call works on the positions 0..n-1. Its "leaves" are the invocations of *)
(* the user's functions (one position each) or range functions (an interval  *)
(* of positions); its "joins" are the invocations of the user's join         *)
(* function on two adjacent intervals. The specification is an acceptor: the *)
(* state after an event is Step(c, s, e), and s.bad collects the ids of the  *)
(* properties that the events so far violate. FJImpl runs it along with a    *)
(* model of the implementation, FJTrace along with recorded executions.      *)
(*                                                                           *)
(* c: [kind: "par" | "spec" | "seq", cls: form of the result, n: positions,  *)
(*     rng: leaves are batches, lazy: leaves may be omitted once decided,    *)
(*     vals: "none", or, if leaves of a sum yield arbitrary numbers (or      *)
(*     strings), how they are combined: "sum", "prod", "fsum", "fprod", "str"]              *)
EXTENDS Integers, Sequences, FiniteSets

Pos(c) == 0 .. (c.n - 1)

Init0 == [ started |-> {},   \* leaves that have started: <<lo, hi>>
           running |-> {},   \* leaves in progress
           ended   |-> {},   \* leaves that have ended: [lo, hi, o, id, err, rt]
           jrun    |-> {},   \* joins in progress: <<lo, hi>>
           jended  |-> {},   \* joins that have ended, like ended
           avail   |-> {},   \* intervals whose result has not been used yet
           vals    |-> {},   \* <<lo, w>>: the leaf at lo yielded the numbers w
           over    |-> FALSE,\* the call has returned or panicked
           bad     |-> {} ]

Covered(S) == UNION { i[1] .. (i[2] - 1) : i \in S }
Iv(x) == <<x.lo, x.hi>>
IvS(X) == { Iv(x) : x \in X }
Min(S) == CHOOSE m \in S : \A x \in S : m <= x

V(cond, p) == IF cond THEN {} ELSE {p}

-----------------------------------------------------------------------------
(* Outcomes of leaves: "t", "f" (ordinary values), "s" (asks to stop), "p"   *)
(* (panics); of joins: "t", "s", "p".                                        *)

Decisive(c, s) == { x \in s.ended \cup s.jended : x.o = "p" \/ (c.kind = "spec" /\ x.o = "s") }

\* events with disjoint intervals are ordered from left to right; of nested
\* ones (impossible unless something is wrong already) the smaller interval
\* comes first
LeftMost(D) == CHOOSE x \in D : \A y \in D : x.lo < y.lo \/ (x.lo = y.lo /\ x.hi <= y.hi)

\* everything to the left of position p has ended
LeftDone(c, s, p) ==
  /\ (0 .. (p - 1)) \subseteq Covered(IvS(s.ended))
  /\ \A i \in s.running \cup s.jrun : i[1] >= p

\* an invocation that makes later ones in the same batch unnecessary
Decided(c, x) == \/ x.o \in {"s", "p"}
                 \/ c.cls = "and" /\ x.o = "f"
                 \/ c.cls = "or"  /\ x.o = "t"

Needed(c, s) ==   \* the positions that must be invoked
  IF c.lazy \/ c.kind = "seq"
  THEN { p \in Pos(c) : ~ \E x \in s.ended : x.lo < p /\ Decided(c, x) }
  ELSE Pos(c)

AllStarted(c, s) == /\ Needed(c, s) \subseteq Covered(s.started)
                    /\ (c.n = 0 /\ c.rng) => s.started # {}
AllEnded(c, s) == /\ AllStarted(c, s) /\ s.running = {} /\ s.jrun = {}

Conj(c, s) == \A x \in s.ended : x.o # "f"
Disj(c, s) == \E x \in s.ended : x.o = "t"

-----------------------------------------------------------------------------
Plain(c) == "vals" \in DOMAIN c /\ c.vals # "none"
\* floats: infinities and NaN are represented by large numbers
Inf == 1000000001
NaN == 1000000003
Special(x) == x \in {Inf, -Inf, NaN}
FAdd(x, y) == CASE x = NaN \/ y = NaN -> NaN
                [] Special(x) /\ Special(y) -> IF x = y THEN x ELSE NaN
                [] Special(x) -> x
                [] Special(y) -> y
                [] OTHER -> x + y
FMul(x, y) == CASE x = NaN \/ y = NaN -> NaN
                [] Special(x) \/ Special(y) -> IF x = 0 \/ y = 0 THEN NaN
                                                ELSE IF (x > 0) = (y > 0) THEN Inf ELSE -Inf
                [] OTHER -> x * y
RECURSIVE Combined(_, _)
Combined(c, X) ==
  IF X = {} THEN CASE c.vals \in {"sum", "fsum"} -> <<0>> [] c.vals \in {"prod", "fprod"} -> <<1>> [] c.vals = "str" -> << >>
  ELSE LET x == CHOOSE x \in X : \A y \in X : x[1] <= y[1]
           rest == Combined(c, X \ {x})
       IN CASE c.vals = "sum" -> <<x[2][1] + rest[1]>>
            [] c.vals = "fsum" -> <<FAdd(x[2][1], rest[1])>>
            [] c.vals = "fprod" -> <<FMul(x[2][1], rest[1])>>
            [] c.vals = "prod" -> <<x[2][1] * rest[1]>>
            [] c.vals = "str" -> x[2] \o rest

(* Does the value with which the call returned represent the combination of  *)
(* all individual results, in order, each exactly once?                      *)
FullResult(c, s, e) ==
  CASE c.cls = "do"   -> TRUE
    [] c.cls = "and"  -> IF c.kind = "spec" THEN e.b = TRUE  ELSE e.b = Conj(c, s)
    [] c.cls = "or"   -> IF c.kind = "spec" THEN e.b = FALSE ELSE e.b = Disj(c, s)
    [] c.cls = "red"  -> e.v = <<0, c.n>>
    [] c.cls = "sred" -> e.v = <<0, c.n>> /\ ~ e.s
    [] c.cls = "sum"  -> IF Plain(c) THEN e.w = Combined(c, s.vals)
                         ELSE e.w = [ i \in 1 .. c.n |-> i - 1 ]

StopResult(c, s, d, e) ==
  CASE c.cls = "and"  -> e.b = FALSE
    [] c.cls = "or"   -> e.b = TRUE
    [] c.cls = "sred" -> e.s /\ e.v = Iv(d)
    [] OTHER -> FALSE

-----------------------------------------------------------------------------
(* Functions of the sequential package: one invocation at a time, on the      *)
(* goroutine of the call, and none after a panic.                             *)
Sequential(c) == c.kind = "seq" /\ ~ c.lazy
Alone(c, s, e) == /\ s.running = {} /\ s.jrun = {} /\ ~ s.over
                  /\ Decisive(c, s) = {}
                  /\ "own" \in DOMAIN e => e.own

-----------------------------------------------------------------------------
(* Events.                                                                   *)

Start(c, s, e) ==
  LET i == <<e.lo, e.hi>>
      inRange == 0 <= e.lo /\ e.lo <= e.hi /\ e.hi <= c.n
      once == /\ inRange
              /\ i \notin s.started
              /\ \A x \in s.started : x[2] <= e.lo \/ e.hi <= x[1]
              /\ IF c.rng THEN e.lo < e.hi \/ c.n = 0 ELSE e.hi = e.lo + 1
  IN [ s EXCEPT !.started = @ \cup {i}, !.running = @ \cup {i},
       !.bad = @ \cup V(once, IF c.lazy THEN "C15" ELSE "C01")
                 \cup V(c.kind = "spec" \/ ~ s.over, IF c.lazy THEN "C15" ELSE "C01")
                 \cup (IF Sequential(c)
                       THEN V(Alone(c, s, e) /\ \A x \in s.started : x[2] <= e.lo, "C26") ELSE {})
                 \* the function must have its split for itself
                 \cup (IF c.lazy THEN V(e.locked, "C15") ELSE {}) ]

End(c, s, e) ==
  LET i == <<e.lo, e.hi>>
  IN [ s EXCEPT !.running = @ \ {i},
       !.vals = IF "w" \in DOMAIN e THEN @ \cup {<<e.lo, e.w>>} ELSE @,
       !.ended = @ \cup {[lo |-> e.lo, hi |-> e.hi, o |-> e.o, id |-> e.lo, err |-> e.err, rt |-> e.rt]},
       !.avail = IF e.o \in {"t", "f"} THEN @ \cup {i} ELSE @ ]

JStart(c, s, e) ==
  LET x == <<e.a, e.b>>
      y == <<e.c, e.d>>
      ok == e.b = e.c /\ x \in s.avail /\ y \in s.avail
  IN [ s EXCEPT !.avail = @ \ {x, y}, !.jrun = @ \cup {<<e.a, e.d>>},
       !.bad = @ \cup V(ok, "C02") \cup (IF c.lazy THEN V(ok, "C15") ELSE {})
                 \cup (IF c.kind = "spec" THEN V(ok, "C06") ELSE {})
                 \cup V(c.kind = "spec" \/ ~ s.over, IF c.lazy THEN "C15" ELSE "C01")
                 \cup (IF Sequential(c) THEN V(Alone(c, s, e), "C26") ELSE {}) ]

JEnd(c, s, e) ==
  LET i == <<e.a, e.d>>
  IN [ s EXCEPT !.jrun = @ \ {i},
       !.jended = @ \cup {[lo |-> e.a, hi |-> e.d, o |-> e.o, id |-> e.id, err |-> e.err, rt |-> e.rt]},
       !.avail = IF e.o = "t" THEN @ \cup {i} ELSE @ ]

(* The call returns (e.e = "Ret") or panics (e.e = "Panic").                 *)
Leave(c, s, e) ==
  LET D == Decisive(c, s)
      none == D = {}
      d == LeftMost(D)
      isRet == e.e = "Ret"
      \* panics must be those of the left-most panicking invocation
      panicText == ~ isRet /\ e.ids = <<d.id>>
      panicType == ~ isRet /\ e.err = d.err /\ e.rt = d.rt
      full == isRet /\ FullResult(c, s, e)
      bad ==
        CASE c.kind = "seq" ->
               (IF none THEN V(full /\ AllEnded(c, s), "C02") \cup (IF c.lazy THEN {} ELSE V(isRet /\ AllEnded(c, s), "C26"))
                \* sequential forms stop at a panic and hand it on as it is
                ELSE IF c.lazy THEN V(panicText /\ panicType, "C15")
                ELSE V(panicText /\ panicType /\ ("same" \in DOMAIN e => e.same), "C26"))
          [] c.kind = "par" ->
               (IF none THEN V(full, "C02") \cup V(isRet, "C05")
                ELSE V(panicText /\ panicType, "C05"))
               \cup V(AllEnded(c, s), "C01")
          [] c.kind = "spec" ->
               (IF none
                THEN V(full, "C02") \cup V(full, "C06") \cup V(isRet, "C05") \cup V(AllEnded(c, s), "C07")
                ELSE V(LeftDone(c, s, d.lo), "C06")
                     \cup (IF d.o = "p" THEN V(panicText /\ panicType, "C05") \cup V(panicText, "C06")
                           ELSE V(isRet /\ StopResult(c, s, d, e), "C06")
                                \cup V(isRet, "C05")))
  IN [ s EXCEPT !.over = TRUE,
       !.bad = @ \cup (IF c.lazy /\ bad # {} THEN bad \cup {"C15"} ELSE bad) ]

(* Nothing can happen any more unless an invocation in progress goes on.     *)
Quiesce(c, s) ==
  LET D == Decisive(c, s)
      d == LeftMost(D)
      bad ==
        (IF c.kind \in {"par", "spec"} /\ ~ c.lazy /\ D = {} THEN V(AllStarted(c, s), "C03") ELSE {})
        \cup
        (IF c.kind = "spec" /\ ~ s.over /\ D # {} /\ d.o = "s" /\ LeftDone(c, s, d.lo)
         THEN {"C07"} \cup (IF c.lazy THEN {"C15"} ELSE {}) ELSE {})
        \cup
        \* a parallel operation on a map works on several splits at the same time
        (IF c.lazy /\ c.kind # "seq" /\ c.n > 1 /\ s.started = s.running THEN V(Cardinality(s.running) > 1, "C15") ELSE {})
        \cup
        \* nothing of this call is in progress: it must have ended
        (IF ~ c.lazy /\ ~ s.over /\ s.running = {} /\ s.jrun = {} THEN {"C25"} ELSE {})
  IN [ s EXCEPT !.bad = @ \cup bad ]

(* Nothing is in progress, nothing can happen any more, and the call has     *)
(* neither returned nor panicked; or it ran away; or the process crashed.    *)
Dead(c, s) ==
  [ s EXCEPT !.bad = @ \cup {"C02", "C25"}
       \cup (CASE c.kind = "par" -> {"C01"} [] c.kind = "spec" -> {"C06", "C07"} [] OTHER -> IF c.lazy THEN {} ELSE {"C26"})
       \cup (IF Decisive(c, s) # {} THEN {"C05"} ELSE {})
       \cup (IF c.lazy THEN {"C15"} ELSE {}) ]

(* A call with very many leaves, at most one of which is special: c.first    *)
(* tells how ("p" panics, "s" asks to stop, "v" yields the value that decides *)
(* the result, or "none"), e.d where the batch with it began if it was       *)
(* invoked. One event summarizes the call: every position was invoked and    *)
(* ended (e.all), those before the special one were (e.left), e.act were in  *)
(* progress when the call ended, none was invoked twice (e.most), those of a *)
(* sequential call came one at a time in order on its goroutine, those on    *)
(* maps had their splits locked (e.order), e.late began after the end, the   *)
(* call ended although everything to the right of the special one was held   *)
(* (e.early).                                                                *)
Big(c, s, e) ==
  LET r == e.ret
      isRet == r.e = "Ret"
      dec == e.d # << >>
      text == ~ isRet /\ dec /\ r.ids = e.d
      type == ~ isRet /\ r.err = e.err /\ r.rt = e.rt
      need == IF dec /\ (c.lazy \/ c.kind = "seq") THEN e.left ELSE e.all
      full == isRet /\
        CASE c.cls = "do"   -> TRUE
          [] c.cls = "and"  -> r.b = ~ dec
          [] c.cls = "or"   -> r.b = dec
          [] c.cls = "red"  -> r.v = <<0, c.n>>
          [] c.cls = "sred" -> r.v = <<0, c.n>> /\ ~ r.s
          [] c.cls = "sum"  -> CASE c.vals \in {"sum", "fsum"}   -> r.w = <<c.n + 2 * c.marks>>
                                 [] c.vals \in {"prod", "fprod"} -> r.w = <<3 ^ c.marks>>
                                 [] OTHER -> r.w = [ i \in 1 .. c.n |-> i - 1 ]
      stop == isRet /\
        CASE c.cls = "and"  -> r.b = FALSE
          [] c.cls = "or"   -> r.b = TRUE
          [] c.cls = "sred" -> r.s /\ r.v[1] <= c.at /\ c.at < r.v[2]
          [] OTHER -> FALSE
      end == need /\ e.act = 0 /\ e.late = 0
      bad ==
        V(e.most, "C01") \cup
        CASE c.kind = "seq" ->
               V(e.order /\ (c.lazy \/ (end /\ e.most)), IF c.lazy THEN "C15" ELSE "C26")
               \cup (IF c.first = "p" THEN V(text /\ type /\ r.same, IF c.lazy THEN "C15" ELSE "C26")
                     ELSE V(full /\ end, "C02") \cup V(isRet, IF c.lazy THEN "C15" ELSE "C26"))
          [] c.kind = "par" ->
               V(e.order, IF c.lazy THEN "C15" ELSE "C01") \cup V(end, "C01")
               \cup (IF c.first = "p" THEN V(text /\ type, "C05") ELSE V(full, "C02") \cup V(isRet, "C05"))
          [] c.kind = "spec" ->
               V(e.order, IF c.lazy THEN "C15" ELSE "C01") \cup V(e.early, "C07") \cup
               (IF ~ dec THEN V(full, "C02") \cup V(full, "C06") \cup V(isRet, "C05") \cup V(end, "C07")
                ELSE V(e.left, "C06")
                     \cup (IF c.first = "p" THEN V(text /\ type, "C05") \cup V(text, "C06")
                           ELSE V(stop, "C06") \cup V(isRet, "C05")))
  IN [ s EXCEPT !.over = TRUE, !.bad = @ \cup bad \cup (IF c.lazy /\ bad # {} THEN {"C15"} ELSE {}) ]

Step(c, s, e) ==
  CASE e.e = "Start"   -> Start(c, s, e)
    [] e.e = "Big"     -> Big(c, s, e)
    \* everything is over; can all splits be locked?
    [] e.e = "Final"   -> [s EXCEPT !.bad = @ \cup V(e.unlocked, "C15")]
    [] e.e = "End"     -> End(c, s, e)
    [] e.e = "JStart"  -> JStart(c, s, e)
    [] e.e = "JEnd"    -> JEnd(c, s, e)
    [] e.e \in {"Ret", "Panic"} -> Leave(c, s, e)
    [] e.e = "Quiesce" -> Quiesce(c, s)
    \* everything is over, but goroutines of the call are left
    [] e.e = "Leak" -> [s EXCEPT !.bad = @ \cup {"C25"}]
    [] e.e \in {"Hang", "Crash"} -> Dead(c, s)
=============================================================================
