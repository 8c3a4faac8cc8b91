------------------------------- MODULE MapAbs -------------------------------
(* Abstract specification of parallel maps: operations on keys (C12), the     *)
(* protocol of their user functions (C13), and iteration (C14). An acceptor   *)
(* of events, like FJAbs. As it is not observable at which instant an         *)
(* operation takes effect, the state holds sets of configurations: all        *)
(* contents and results that are possible after the events so far. There are  *)
(* five such sets:                                                            *)
(*   W: operations are atomic, whatever their user functions do (C12);        *)
(*   S: also, user functions are called according to their protocol and in    *)
(*      isolation (C13);                                                      *)
(*   T: also (compared to W), iterations see what they should, and nothing    *)
(*      changes behind their back (C14);                                      *)
(*   U: also (compared to W), users that hold the lock of a split are alone    *)
(*      with its entries (C27);                                               *)
(*   A: also (compared to W), functions that are invoked on a split are (C15). *)
(*                                                                            *)
(* c: [keys: number of keys, split: key -> its split, from 1,                 *)
(*     ord: splits are numbered in their order in the map,                    *)
(*     full: there are no other splits,                                       *)
(*     own, agg (optional): splits are locked by users, or there are calls     *)
(*     that invoke functions on splits; then also                              *)
(*     size: number of splits, cls: key -> class of keys with equal hashes]    *)
(* Values are integers; 0 is the nil value, Absent stands for no entry.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Absent == -1
Keys(c) == 1 .. c.keys
NoFun == [x \in {} |-> x]

Conf0(c) == [ m |-> [k \in Keys(c) |-> Absent], \* contents
              o |-> NoFun,                       \* operation -> its status
              h |-> [k \in Keys(c) |-> {}],      \* values since the iteration was called
              g |-> {} ]                         \* splits changed after their first visit
Init0(c) == [ ops  |-> NoFun,     \* operations in progress: id -> [k, key, v, st, p]
              cbs  |-> {},        \* operations whose user function is in progress
              nCb  |-> NoFun,     \* number of calls of the user function
              it   |-> [on |-> FALSE],
              visited |-> {}, visiting |-> {}, stopped |-> FALSE, stopAt |-> {},
              panicked |-> FALSE, cbUsed |-> FALSE,
              owned |-> FALSE,    \* a user has held a lock
              blk  |-> {},        \* users that hold a lock since the iteration was called
              hold |-> NoFun,     \* holder of a split -> [k: "own", "rown" or "agg", q: split]
              W |-> {Conf0(c)}, S |-> {Conf0(c)}, T |-> {Conf0(c)}, U |-> {Conf0(c)}, A |-> {Conf0(c)},
              bad |-> {} ]

Res(v, ok, p) == [st |-> "d", v |-> v, ok |-> ok, p |-> p]
Pend == [st |-> "p", v |-> 0, ok |-> FALSE, p |-> FALSE]

-----------------------------------------------------------------------------
(* The effect of operation o on an ordinary map: <<contents, result>>.        *)
Eff(o, m) ==
  LET old == m[o.key]
      has == old # Absent
      val == IF has THEN old ELSE 0
  IN CASE o.k = "load" -> << m, Res(val, has, FALSE) >>
       [] o.k = "del"  -> << [m EXCEPT ![o.key] = Absent], Res(0, FALSE, FALSE) >>
       [] o.k \in {"ls", "loc"} ->
            IF has THEN << m, Res(old, TRUE, FALSE) >>
            ELSE IF o.p THEN << m, Res(0, FALSE, TRUE) >>
            ELSE << [m EXCEPT ![o.key] = o.v], Res(o.v, FALSE, FALSE) >>
       [] o.k \in {"ds", "doc"} ->
            IF has THEN << [m EXCEPT ![o.key] = Absent], Res(old, TRUE, FALSE) >>
            ELSE IF o.p THEN << m, Res(0, FALSE, TRUE) >>
            ELSE << [m EXCEPT ![o.key] = o.v], Res(o.v, FALSE, FALSE) >>
       [] o.k = "rown" -> << m, Res(0, FALSE, FALSE) >>
       [] o.k \in {"mod", "own"} ->
            IF o.p THEN << m, Res(0, FALSE, TRUE) >>
            ELSE << [m EXCEPT ![o.key] = IF o.st THEN o.v ELSE Absent], Res(o.v, o.st, FALSE) >>

HasCb(o) == o.k \in {"loc", "doc", "mod"}
SetO(x, i, r) == [x EXCEPT !.o = (i :> r) @@ @]
SetM(x, m) == [x EXCEPT !.m = m, !.h = [k \in DOMAIN m |-> IF x.h[k] = {} THEN {} ELSE x.h[k] \cup {m[k]}]]
\* in T: also notes the changes of splits that have been visited already
SetMT(c, s, x, m) ==
  LET y == SetM(x, m)
      seen == { c.split[k] : k \in s.visited }
  IN [ y EXCEPT !.g = @ \cup ({ c.split[k] : k \in { k \in DOMAIN m : m[k] # x.m[k] } } \cap seen) ]

\* the configurations after operation i takes effect in configuration x
LinW(s, x, i) ==
  IF x.o[i].st # "p" THEN {}
  ELSE LET e == Eff(s.ops[i], x.m) IN { SetO(SetM(x, e[1]), i, e[2]) }

LinT(c, s, x, i) ==
  IF x.o[i].st # "p" THEN {}
  ELSE LET e == Eff(s.ops[i], x.m)
       IN IF e[1] # x.m /\ c.split[s.ops[i].key] \in { c.split[k] : k \in s.visiting } THEN {}
          ELSE { SetO(SetMT(c, s, x, e[1]), i, e[2]) }

\* with user functions: "a" has found no entry, "l" is calling its function,
\* "c" has called its function
LinS(s, x, i) ==
  LET o == s.ops[i]
      locked == \E j \in DOMAIN x.o : x.o[j].st = "l" /\ s.ops[j].k # "loc" /\ s.ops[j].key = o.key
      has == x.m[o.key] # Absent
      e == Eff(o, x.m)
  IN IF locked THEN {}
     ELSE CASE x.o[i].st = "p" ->
                 (CASE o.k = "mod" -> {}
                    [] o.k \in {"loc", "doc"} ->
                         IF has THEN { SetO(SetM(x, e[1]), i, e[2]) }
                         ELSE IF o.k = "loc" THEN { SetO(x, i, [Pend EXCEPT !.st = "a"]) } ELSE {}
                    [] OTHER -> { SetO(SetM(x, e[1]), i, e[2]) })
            [] x.o[i].st = "c" -> { SetO(SetM(x, e[1]), i, e[2]) }
            [] OTHER -> {}

\* the same when split locks and functions on splits (those of the kinds K)
\* isolate; accesses under these locks take effect when they end
Own == {"own", "rown"}
Agg == {"agg"}
LinK(c, s, x, i, K) ==
  IF x.o[i].st # "p" \/ s.ops[i].k \in K THEN {}
  ELSE LET e == Eff(s.ops[i], x.m)
           q == c.split[s.ops[i].key]
           blocks(h) == /\ s.hold[h].k \in K
                        /\ s.hold[h].q = q
                        /\ (s.hold[h].k # "rown" \/ e[1] # x.m)
           \* for users that hold a split, iterations and user functions do as well
           users == K = Own /\ (\/ \E v \in s.visiting : c.split[v] = q
                               \/ \E j \in s.cbs \ {i} : s.ops[j].k # "loc" /\ c.split[s.ops[j].key] = q)
       IN IF (\E h \in DOMAIN s.hold : blocks(h)) \/ users
          THEN {} ELSE { SetO(SetM(x, e[1]), i, e[2]) }
UsesOwn(c) == "own" \in DOMAIN c /\ c.own
UsesAgg(c) == "agg" \in DOMAIN c /\ c.agg

RECURSIVE CloseW(_, _), CloseS(_, _), CloseT(_, _, _), CloseK(_, _, _, _)
CloseK(c, s, X, K) ==
  LET Y == X \cup UNION { LinK(c, s, x, i, K) : x \in X, i \in DOMAIN s.ops } IN IF Y = X THEN X ELSE CloseK(c, s, Y, K)
CloseU(c, s) == IF UsesOwn(c) THEN CloseK(c, s, s.U, Own) ELSE s.U
CloseA(c, s) == IF UsesAgg(c) THEN CloseK(c, s, s.A, Agg) ELSE s.A
CloseW(s, X) == LET Y == X \cup UNION { LinW(s, x, i) : x \in X, i \in DOMAIN s.ops } IN IF Y = X THEN X ELSE CloseW(s, Y)
CloseS(s, X) == LET Y == X \cup UNION { LinS(s, x, i) : x \in X, i \in DOMAIN s.ops } IN IF Y = X THEN X ELSE CloseS(s, Y)
CloseT(c, s, X) == LET Y == X \cup UNION { LinT(c, s, x, i) : x \in X, i \in DOMAIN s.ops } IN IF Y = X THEN X ELSE CloseT(c, s, Y)

Judge(s) ==
  [ s EXCEPT !.bad = @ \cup (IF s.W = {} THEN {"C12"} ELSE {})
                       \cup (IF s.S = {} /\ (s.W # {} \/ s.cbUsed) THEN {"C13"} ELSE {})
                       \cup (IF s.T = {} /\ s.W # {} THEN {"C14"} ELSE {})
                       \cup (IF s.U = {} /\ (s.W # {} \/ s.owned) THEN {"C27"} ELSE {})
                       \cup (IF s.A = {} /\ s.W # {} THEN {"C15"} ELSE {}) ]

-----------------------------------------------------------------------------
Drop(f, i) == [j \in DOMAIN f \ {i} |-> f[j]]
DropO(X, i) == { [x EXCEPT !.o = Drop(@, i)] : x \in X }

Call(c, s, e) ==
  LET o == [k |-> e.k, key |-> e.key, v |-> e.v, st |-> e.st, p |-> e.p]
      add(X) == { SetO(x, e.op, Pend) : x \in X }
  IN [ s EXCEPT !.ops = (e.op :> o) @@ @, !.nCb = (e.op :> 0) @@ @, !.cbUsed = @ \/ HasCb(o),
                !.W = add(@), !.S = add(@), !.T = add(@),
                !.U = IF UsesOwn(c) THEN add(@) ELSE @, !.A = IF UsesAgg(c) THEN add(@) ELSE @ ]

Breaks(k) == IF k = "agg" THEN {"C15"} ELSE {"C27"}

CStart(c, s, e) ==
  LET i == e.op
      o == s.ops[i]
      X == CloseS(s, s.S)
      free(x) == ~ \E j \in DOMAIN x.o : j # i /\ x.o[j].st = "l" /\ s.ops[j].k # "loc" /\ s.ops[j].key = o.key
      ok(x) == CASE o.k = "loc" -> x.o[i].st = "a"
                 [] o.k = "doc" -> x.o[i].st = "p" /\ x.m[o.key] = Absent /\ free(x)
                 [] o.k = "mod" -> /\ x.o[i].st = "p" /\ free(x)
                                   /\ e.ok = (x.m[o.key] # Absent)
                                   /\ e.v = IF e.ok THEN x.m[o.key] ELSE 0
      s1 == [ s EXCEPT !.S = { SetO(x, i, [Pend EXCEPT !.st = "l"]) : x \in {y \in X : ok(y)} },
                       !.U = CloseU(c, s),
                       !.cbs = @ \cup {i}, !.nCb[i] = @ + 1,
                       !.bad = @ \cup IF o.k = "loc" THEN {}
                                      ELSE (IF UsesOwn(c) /\ (\/ \E v \in s.visiting : c.split[v] = c.split[o.key]
                                                               \/ \E j \in s.cbs : s.ops[j].k # "loc" /\ c.split[s.ops[j].key] = c.split[o.key])
                                            THEN {"C27"} ELSE {}) \cup UNION { Breaks(s.hold[h].k) : h \in { h \in DOMAIN s.hold : s.hold[h].q = c.split[o.key] /\ s.hold[h].k # "rown" } } ]
  IN IF s1.nCb[i] > 1 THEN [s1 EXCEPT !.bad = @ \cup {"C13"}] ELSE Judge(s1)

CEnd(c, s, e) ==
  LET i == e.op
      o == s.ops[i]
      after(x) == IF x.o[i].st # "l" THEN x
                  ELSE IF o.p THEN SetO(x, i, Res(0, FALSE, TRUE))
                  ELSE IF o.k = "loc" THEN SetO(x, i, [Pend EXCEPT !.st = "c"])
                  ELSE LET f == Eff(o, x.m) IN SetO(SetM(x, f[1]), i, f[2])
  IN [ s EXCEPT !.cbs = @ \ {i}, !.U = CloseU(c, s), !.S = { after(x) : x \in @ }, !.panicked = @ \/ o.p ]

\* an operation returns or panics
Ret(c, s, e) ==
  LET i == e.op
      o == s.ops[i]
      ok(x) == /\ x.o[i].st = "d"
               /\ IF e.p THEN x.o[i].p
                  ELSE ~ x.o[i].p /\ (o.k = "del" \/ (x.o[i].v = e.v /\ x.o[i].ok = e.ok))
      s1 == [ s EXCEPT !.W = { x \in CloseW(s, s.W) : ok(x) },
                       !.S = { x \in CloseS(s, s.S) : ok(x) },
                       !.T = { x \in CloseT(c, s, s.T) : ok(x) },
                       !.U = IF UsesOwn(c) THEN { x \in CloseU(c, s) : ok(x) } ELSE @,
                       !.A = IF UsesAgg(c) THEN { x \in CloseA(c, s) : ok(x) } ELSE @ ]
      s2 == Judge(s1)
      s3 == [ s2 EXCEPT !.bad = @ \cup (IF e.op \in s.cbs THEN {"C13"} ELSE {}) ]
  IN [ s3 EXCEPT !.W = DropO(@, i), !.S = DropO(@, i), !.T = DropO(@, i),
                 !.U = IF UsesOwn(c) THEN DropO(@, i) ELSE @, !.A = IF UsesAgg(c) THEN DropO(@, i) ELSE @,
                 !.ops = Drop(@, i), !.nCb = Drop(@, i), !.cbs = @ \ {i} ]

-----------------------------------------------------------------------------
(* Users that hold the lock ("own") or the read lock ("rown") of a split, and  *)
(* functions that a map-wide call invokes on a split ("agg"). e.all are the    *)
(* entries of the split, per key.                                             *)

Matches(c, x, q, all) == \A k \in Keys(c) : all[k] = IF c.split[k] = q THEN x.m[k] ELSE Absent

Hold(c, s, k, i, q, e) ==
  LET s1 == [ s EXCEPT !.owned = @ \/ k \in Own, !.hold = (i :> [k |-> k, q |-> q]) @@ @,
                       !.U = IF UsesOwn(c) /\ k \in Own THEN { x \in CloseU(c, s) : Matches(c, x, q, e.all) } ELSE @,
                       !.A = IF UsesAgg(c) /\ k \in Agg THEN { x \in CloseA(c, s) : Matches(c, x, q, e.all) } ELSE @ ]
      others == { h \in DOMAIN s.hold : s.hold[h].q = q /\ (k # "rown" \/ s.hold[h].k # "rown") }
      bad == UNION { Breaks(k) \cup Breaks(s.hold[h].k) : h \in others }
             \cup (IF k # "rown" /\ \E v \in s.visiting : c.split[v] = q THEN Breaks(k) ELSE {})
             \cup (IF k # "rown" /\ \E j \in s.cbs : s.ops[j].k # "loc" /\ c.split[s.ops[j].key] = q THEN Breaks(k) ELSE {})
             \cup (IF e.same THEN {} ELSE {"C27"})
  IN Judge([ s1 EXCEPT !.bad = @ \cup bad ])

OStart(c, s, e) == Hold(c, s, s.ops[e.op].k, e.op, c.split[s.ops[e.op].key], e)
AStart(c, s, e) == Hold(c, s, "agg", e.op, e.q, e)

OEnd(c, s, e) ==
  LET i == e.op
      eff(x) == LET f == Eff(s.ops[i], x.m) IN SetO(SetM(x, f[1]), i, f[2])
      s1 == [ s EXCEPT !.hold = Drop(@, i), !.blk = @ \ {i},
                       !.U = IF UsesOwn(c) THEN { eff(x) : x \in { x \in CloseU(c, s) : Matches(c, x, s.hold[i].q, e.all) } } ELSE @ ]
  IN Judge(s1)
AEnd(c, s, e) ==
  LET s1 == [ s EXCEPT !.hold = Drop(@, e.op),
                       !.A = IF UsesAgg(c) THEN { x \in CloseA(c, s) : Matches(c, x, s.hold[e.op].q, e.all) } ELSE @ ]
  IN Judge(s1)

\* e.n: the number of splits on which a map-wide call invokes its function
SplitsEv(c, s, e) ==
  [ s EXCEPT !.bad = @ \cup (IF e.n = c.size /\ \A k, l \in Keys(c) : c.cls[k] = c.cls[l] => c.split[k] = c.split[l] THEN {} ELSE {"C27"}) ]

-----------------------------------------------------------------------------
(* Iteration: at most one in a history. h[k] collects the values key k has    *)
(* had since the call (Absent included).                                      *)

ICall(c, s, e) ==
  LET s1 == [ s EXCEPT !.T = CloseT(c, s, @) ]  \* operations may have taken effect before
      begin(x) == [x EXCEPT !.h = [k \in Keys(c) |-> {x.m[k]}]]
  IN [ s1 EXCEPT !.it = [on |-> TRUE, k |-> e.k], !.T = { begin(x) : x \in @ },
                 !.blk = { h \in DOMAIN s.hold : s.hold[h].k = "own" } ]

VStart(c, s, e) ==
  LET late == ~ s.it.on /\ "k" \in DOMAIN s.it /\ s.it.k = "srange" /\ s.stopped \* left-over work
      bad == \/ ~ s.it.on /\ ~ late
             \/ e.key \in s.visited
             \/ s.it.on /\ s.it.k = "range" /\ (s.stopped \/ s.visiting # {})
             \* a portion is isolated also from other visits of it
             \/ \E k \in s.visiting : c.split[k] = c.split[e.key]
      s1 == [ s EXCEPT !.visited = @ \cup {e.key}, !.visiting = @ \cup {e.key},
                       !.U = CloseU(c, s),
                       !.T = { x \in CloseT(c, s, @) : x.m[e.key] = e.v /\ c.split[e.key] \notin x.g } ]
      held == UNION { Breaks(s.hold[h].k) : h \in { h \in DOMAIN s.hold : s.hold[h].q = c.split[e.key] /\ s.hold[h].k # "rown" } }
      \* also from user functions of operations
      users == UsesOwn(c) /\ (\/ \E j \in s.cbs : s.ops[j].k # "loc" /\ c.split[s.ops[j].key] = c.split[e.key]
                             \/ \E v \in s.visiting : c.split[v] = c.split[e.key])
      s2 == [ s1 EXCEPT !.bad = @ \cup held \cup (IF users THEN {"C27"} ELSE {}) ]
  IN IF bad THEN [ s2 EXCEPT !.bad = @ \cup {"C14"} ] ELSE Judge(s2)

VEnd(c, s, e) ==
  [ s EXCEPT !.visiting = @ \ {e.key},
             !.stopped = @ \/ ~ e.go \/ e.p, !.panicked = @ \/ e.p,
             !.stopAt = IF e.go \/ e.p THEN @ ELSE @ \cup {c.split[e.key]} ]

IRet(c, s, e) ==
  LET always(x) == { k \in Keys(c) : x.h[k] # {} /\ Absent \notin x.h[k] }
      s1 == [ s EXCEPT !.T = IF s.stopped THEN @
                             ELSE { x \in CloseT(c, s, @) : always(x) \subseteq s.visited } ]
      s2 == Judge(s1)
      bad == \/ e.p /\ ~ s.panicked
             \/ ~ e.p /\ s.panicked /\ ~ (s.it.k = "srange" /\ s.stopAt # {})
             \/ s.visiting # {} /\ ~ (s.it.k = "srange" /\ s.stopped)
      \* it has looked at all splits, also at those that it could not lock
      held == ~ s.stopped /\ ~ s.panicked /\ s.blk # {}
  IN [ s2 EXCEPT !.bad = @ \cup (IF bad THEN {"C14"} ELSE {}) \cup (IF held THEN {"C27"} ELSE {}), !.it = [on |-> FALSE, k |-> s.it.k],
                 !.T = { [x EXCEPT !.h = [k \in Keys(c) |-> {}]] : x \in @ } ]

-----------------------------------------------------------------------------
(* Nothing can happen any more unless a user function in progress goes on.    *)
Quiesce(c, s) ==
  LET held == { c.split[s.ops[i].key] : i \in { j \in s.cbs : s.ops[j].k # "loc" } }
              \cup { c.split[k] : k \in s.visiting }
              \cup { s.hold[h].q : h \in DOMAIN s.hold }
      stuck == { i \in DOMAIN s.ops : i \notin s.cbs \cup DOMAIN s.hold /\ c.split[s.ops[i].key] \notin held }
      \* a speculative iteration has been stopped, and whatever is still in
      \* progress lies further right
      spec == /\ s.it.on /\ s.it.k = "srange" /\ c.ord
              /\ \E d \in s.stopAt : \A k \in s.visiting : c.split[k] > d
              /\ s.cbs = {} /\ s.hold = NoFun
      \* a parallel iteration works on several splits at the same time
      all == { c.split[k] : k \in Keys(c) }
      single == /\ s.it.on /\ s.it.k # "range" /\ c.full /\ Cardinality(all) > 1
                /\ DOMAIN s.ops = {} /\ s.hold = NoFun /\ s.visited = s.visiting /\ Cardinality(s.visiting) = 1
                /\ \A x \in s.T : { c.split[k] : k \in { k \in Keys(c) : Absent \notin x.h[k] } } = all
  IN [ s EXCEPT !.bad = @ \cup (IF stuck # {} /\ s.cbs # {} THEN {"C13"} ELSE {})
                           \* other splits stay accessible
                           \cup (IF stuck # {} /\ s.visiting # {} THEN {"C14"} ELSE {})
                           \cup (IF stuck # {} /\ \E h \in DOMAIN s.hold : s.hold[h].k \in Own THEN {"C27"} ELSE {})
                           \cup (IF single THEN {"C14"} ELSE {})
                           \cup (IF spec THEN {"C14"} ELSE {}) ]

\* deadlock, endless loop, or crash of the process
Dead(c, s) ==
  [ s EXCEPT !.bad = @ \cup (IF "k" \in DOMAIN s.it THEN {"C14", "C25"} ELSE IF s.panicked THEN {"C13"} ELSE {"C12"})
                       \cup (IF UsesOwn(c) THEN {"C27"} ELSE {}) ]

(* Many goroutines have used or visited many entries, each of which was       *)
(* changed by one of them only; one event summarizes what they saw. e.kind is *)
(* "ops", or the kind of an iteration that c.stop tells about. For the        *)
(* operations: numbers of wrong results (e.wrong), of violations of the       *)
(* protocol of user functions (e.proto), of wrong entries seen by users that  *)
(* held locks (e.own), of wrong entries used by all (e.shared), of entries in *)
(* wrong splits (e.place). For iterations: entries that were not visited      *)
(* (e.missing), visited more than once or absent (e.twice), with wrong or     *)
(* changing values (e.wrong); invocations after the function had stopped the  *)
(* iteration (e.more) or after its end (e.late), in progress at the end       *)
(* (e.act), at the same time for the same portion (e.overlap); whether it     *)
(* panicked (e.p), and how often the map was wrong otherwise (e.after).       *)
Big(c, s, e) ==
  LET B(cond, P) == IF cond THEN {} ELSE P
      spec == e.kind = "srange" /\ c.stop # "no"
      bad == IF e.kind = "ops"
             THEN B(e.wrong = 0 /\ e.shared = 0, {"C12"}) \cup B(e.proto = 0, {"C13"})
                  \cup B(e.own = 0 /\ e.place = 0, {"C27"})
                  \cup B(e.wrong + e.shared = 0, IF UsesOwn(c) THEN {"C27"} ELSE {})
             ELSE B(/\ c.stop = "no" => e.missing = 0
                    /\ e.twice = 0 /\ e.wrong = 0 /\ e.after = 0 /\ ~ e.overlap
                    /\ (e.kind = "range" => e.more = 0)
                    /\ (spec \/ (e.late = 0 /\ e.act = 0))
                    /\ e.p = (c.stop = "panic"), {"C14"})
                  \cup (IF UsesOwn(c) THEN B(e.wrong = 0 /\ e.after = 0 /\ ~ e.overlap, {"C27"}) ELSE {})
  IN [s EXCEPT !.bad = @ \cup bad, !.it = IF e.kind = "ops" THEN @ ELSE [on |-> FALSE, k |-> e.kind]]

Step(c, s, e) ==
  CASE e.e = "Call"    -> Call(c, s, e)
    [] e.e = "CStart"  -> CStart(c, s, e)
    [] e.e = "CEnd"    -> CEnd(c, s, e)
    [] e.e = "Ret"     -> Ret(c, s, e)
    [] e.e = "OStart"  -> OStart(c, s, e)
    [] e.e = "OEnd"    -> OEnd(c, s, e)
    [] e.e = "AStart"  -> AStart(c, s, e)
    [] e.e = "AEnd"    -> AEnd(c, s, e)
    [] e.e = "Big"     -> Big(c, s, e)
    [] e.e = "Splits"  -> SplitsEv(c, s, e)
    [] e.e = "ICall"   -> ICall(c, s, e)
    [] e.e = "VStart"  -> VStart(c, s, e)
    [] e.e = "VEnd"    -> VEnd(c, s, e)
    [] e.e = "IRet"    -> IRet(c, s, e)
    [] e.e = "Quiesce" -> Quiesce(c, s)
    [] e.e \in {"Hang", "Crash"} -> Dead(c, s)
    [] e.e = "Leak"    -> [ s EXCEPT !.bad = @ \cup {"C25"} ]
    [] e.e = "Race"    -> [ s EXCEPT !.bad = @ \cup {"C12"} \cup (IF UsesOwn(c) THEN {"C27"} ELSE {}) ]
=============================================================================
