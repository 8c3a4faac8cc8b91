------------------------------ MODULE MapImpl ------------------------------
(* The implementation of parallel maps: splits with a readers-writer lock     *)
(* each; lookups under the read lock, then again under the write lock; user   *)
(* functions between the two, or under the write lock. Clients execute one    *)
(* operation each, an optional further client iterates. MapAbs runs along.    *)
EXTENDS MapAbs

CONSTANTS NClients, NKeys, NSplits,
          OpKinds,   \* operations to choose from
          IterKinds, \* "none", "range", "prange", "srange", "agg"
          Defect

VARIABLES c, ops, \* the instance
          init,   \* initial contents
          mem,    \* contents
          lk,     \* split -> [w: writer or 0, r: readers]
          pc, loc, \* client -> control state, local variables
          it,     \* iteration: split -> state
          ab
vars == <<c, ops, init, mem, lk, pc, loc, it, ab>>

Clients == 1 .. NClients
Iter == NClients + 1
Splits == 1 .. NSplits
SplitOf(k) == ((k - 1) % NSplits) + 1
Kinds == [ load |-> [k |-> "load", v |-> 0, st |-> FALSE, p |-> FALSE],
           del  |-> [k |-> "del",  v |-> 0, st |-> FALSE, p |-> FALSE],
           ls   |-> [k |-> "ls",   v |-> 7, st |-> FALSE, p |-> FALSE],
           ds   |-> [k |-> "ds",   v |-> 7, st |-> FALSE, p |-> FALSE],
           loc  |-> [k |-> "loc",  v |-> 7, st |-> FALSE, p |-> FALSE],
           locp |-> [k |-> "loc",  v |-> 7, st |-> FALSE, p |-> TRUE],
           doc  |-> [k |-> "doc",  v |-> 7, st |-> FALSE, p |-> FALSE],
           docp |-> [k |-> "doc",  v |-> 7, st |-> FALSE, p |-> TRUE],
           mod  |-> [k |-> "mod",  v |-> 7, st |-> TRUE,  p |-> FALSE],
           modd |-> [k |-> "mod",  v |-> 7, st |-> FALSE, p |-> FALSE],
           modp |-> [k |-> "mod",  v |-> 7, st |-> TRUE,  p |-> TRUE],
           own  |-> [k |-> "own",  v |-> 7, st |-> TRUE,  p |-> FALSE],
           ownd |-> [k |-> "own",  v |-> 7, st |-> FALSE, p |-> FALSE],
           rown |-> [k |-> "rown", v |-> 7, st |-> FALSE, p |-> FALSE] ]

Emit(e) == ab' = Step(c, ab, e)
Same == ab' = ab

\* the initial contents are those left by operations before
Prefix == [ k \in 1 .. NKeys |-> k ]
RECURSIVE Fill(_, _, _)
Fill(cc, s, K) ==
  IF K = {} THEN s
  ELSE LET k == CHOOSE x \in K : TRUE
           s1 == Step(cc, s, [e |-> "Call", op |-> 100 + k, k |-> "ls", key |-> k, v |-> 50 + k, st |-> FALSE, p |-> FALSE])
           s2 == Step(cc, s1, [e |-> "Ret", op |-> 100 + k, v |-> 50 + k, ok |-> FALSE, p |-> FALSE])
       IN Fill(cc, s2, K \ {k})

Init ==
  /\ c = [keys |-> NKeys, split |-> [k \in 1 .. NKeys |-> SplitOf(k)], ord |-> TRUE,
           full |-> { SplitOf(k) : k \in 1 .. NKeys } = 1 .. NSplits,
           own |-> OpKinds \cap {"own", "ownd", "rown"} # {}, agg |-> "agg" \in IterKinds, size |-> NSplits,
           cls |-> [k \in 1 .. NKeys |-> k % (NSplits + 1)]]
  /\ ops \in [Clients -> { [Kinds[k] EXCEPT !.v = @] @@ [key |-> q] : k \in OpKinds, q \in 1 .. NKeys }]
  /\ \E K \in SUBSET (1 .. NKeys) :
       /\ init = [k \in 1 .. NKeys |-> IF k \in K THEN 50 + k ELSE Absent]
       /\ ab = Fill(c, Init0(c), K)
  /\ mem = init
  /\ lk = [q \in Splits |-> [w |-> 0, r |-> 0]]
  /\ pc = [i \in Clients |-> "idle"]
  /\ loc = [i \in Clients |-> Absent]
  /\ \E k \in IterKinds :
       it = [k |-> k, pc |-> "idle", sp |-> [q \in Splits |-> [pc |-> "wait", todo |-> {}, cur |-> 0]], stop |-> FALSE]

Val(i) == ops[i].v + i
K(i) == ops[i].key
Sp(i) == SplitOf(K(i))
CanR(q) == lk[q].w = 0
CanW(q) == lk[q].w = 0 /\ lk[q].r = 0
Go(i, l) == pc' = [pc EXCEPT ![i] = l]
Keep(x) == UNCHANGED x

Writes(k) == k \in {"del", "ds", "doc", "mod", "own"}
All(q) == [k \in 1 .. NKeys |-> IF SplitOf(k) = q THEN mem[k] ELSE Absent]

Call1(i) ==
  /\ pc[i] = "idle" /\ Go(i, IF Writes(ops[i].k) THEN "wlock" ELSE "rlock")
  /\ Emit([e |-> "Call", op |-> i, k |-> ops[i].k, key |-> K(i), v |-> Val(i), st |-> ops[i].st, p |-> ops[i].p])
  /\ Keep(<<c, ops, init, mem, lk, loc, it>>)
RLock(i) ==
  /\ pc[i] = "rlock" /\ Go(i, IF ops[i].k = "rown" THEN "take" ELSE "read")
  /\ IF Defect = "loadNoLock" /\ ops[i].k = "load" THEN lk' = lk
     ELSE CanR(Sp(i)) /\ lk' = [lk EXCEPT ![Sp(i)].r = @ + 1]
  /\ Same /\ Keep(<<c, ops, init, mem, loc, it>>)
Read(i) ==
  /\ pc[i] = "read" /\ Go(i, "runlock") /\ loc' = [loc EXCEPT ![i] = mem[K(i)]]
  /\ Same /\ Keep(<<c, ops, init, mem, lk, it>>)
RUnlock(i) ==
  /\ pc[i] = "runlock"
  /\ lk' = IF Defect = "computeLocked" /\ ops[i].k = "loc" /\ loc[i] = Absent THEN lk
           ELSE IF Defect = "loadNoLock" /\ ops[i].k = "load" THEN lk
           ELSE [lk EXCEPT ![Sp(i)].r = @ - 1]
  /\ Go(i, IF ops[i].k = "load" \/ loc[i] # Absent THEN "ret" ELSE IF ops[i].k = "loc" THEN "call" ELSE "wlock")
  /\ Same /\ Keep(<<c, ops, init, mem, loc, it>>)
Call2(i) == \* the user function starts
  /\ pc[i] = "call" /\ Go(i, "user")
  /\ Emit([e |-> "CStart", op |-> i, ok |-> ops[i].k = "mod" /\ loc[i] # Absent,
           v |-> IF ops[i].k = "mod" /\ loc[i] # Absent THEN loc[i] ELSE 0])
  /\ Keep(<<c, ops, init, mem, lk, loc, it>>)
UserEnd(i) ==
  /\ pc[i] = "user"
  /\ Emit([e |-> "CEnd", op |-> i])
  /\ IF ops[i].p THEN Go(i, IF ops[i].k = "loc" \/ Defect = "noUnlock" THEN "panic" ELSE "punlock")
     ELSE IF ops[i].k = "loc" THEN Go(i, IF Defect = "computeLocked" THEN "runlock2" ELSE "wlock")
     ELSE Go(i, "store")
  /\ Keep(<<c, ops, init, mem, lk, loc, it>>)
RUnlock2(i) ==
  /\ pc[i] = "runlock2" /\ Go(i, "wlock")
  /\ lk' = [lk EXCEPT ![Sp(i)].r = @ - 1] /\ Same /\ Keep(<<c, ops, init, mem, loc, it>>)
PUnlock(i) ==
  /\ pc[i] = "punlock" /\ Go(i, "panic") /\ lk' = [lk EXCEPT ![Sp(i)].w = 0]
  /\ Same /\ Keep(<<c, ops, init, mem, loc, it>>)
WLock(i) ==
  /\ pc[i] = "wlock"
  /\ IF Defect = "delNoLock" /\ ops[i].k = "del" THEN lk' = lk
     ELSE CanW(Sp(i)) /\ lk' = [lk EXCEPT ![Sp(i)].w = i]
  /\ Go(i, "look")
  /\ Same /\ Keep(<<c, ops, init, mem, loc, it>>)
Look(i) ==
  /\ pc[i] = "look"
  /\ LET v == IF Defect = "noRecheck" /\ ops[i].k \in {"ls", "loc"} THEN loc[i] ELSE mem[K(i)]
         has == v # Absent
     IN /\ loc' = [loc EXCEPT ![i] = v]
        /\ CASE ops[i].k \in {"ls", "loc"} -> Go(i, IF has THEN "wunlock" ELSE "store")
             [] ops[i].k = "del" -> Go(i, "store")
             [] ops[i].k = "ds" -> Go(i, "store")
             [] ops[i].k = "doc" -> Go(i, IF has THEN "store" ELSE "call")
             [] ops[i].k = "mod" -> Go(i, "call")
             [] ops[i].k = "own" -> Go(i, "take")
  /\ Same /\ Keep(<<c, ops, init, mem, lk, it>>)
Store(i) ==
  /\ pc[i] = "store" /\ Go(i, "wunlock")
  /\ mem' = [mem EXCEPT ![K(i)] =
       CASE ops[i].k \in {"ls", "loc"} -> Val(i)
         [] ops[i].k = "del" -> Absent
         [] ops[i].k \in {"ds", "doc"} -> IF loc[i] # Absent THEN Absent ELSE Val(i)
         [] ops[i].k = "mod" -> IF ops[i].st THEN Val(i) ELSE Absent]
  /\ Same /\ Keep(<<c, ops, init, lk, loc, it>>)
WUnlock(i) ==
  /\ pc[i] = "wunlock" /\ Go(i, "ret")
  /\ lk' = IF lk[Sp(i)].w = i THEN [lk EXCEPT ![Sp(i)].w = 0] ELSE lk
  /\ Same /\ Keep(<<c, ops, init, mem, loc, it>>)
Return(i) ==
  /\ pc[i] \in {"ret", "panic"} /\ Go(i, "done")
  /\ LET has == loc[i] # Absent
         r(v, ok) == [e |-> "Ret", op |-> i, v |-> v, ok |-> ok, p |-> FALSE]
     IN Emit(IF pc[i] = "panic" THEN [e |-> "Ret", op |-> i, v |-> 0, ok |-> FALSE, p |-> TRUE]
             ELSE CASE ops[i].k = "load" -> r(IF has THEN loc[i] ELSE 0, has)
                    [] ops[i].k \in {"ls", "loc", "ds", "doc"} -> r(IF has THEN loc[i] ELSE Val(i), has)
                    [] ops[i].k \in {"del", "rown"} -> r(0, FALSE)
                    [] ops[i].k \in {"mod", "own"} -> r(Val(i), ops[i].st))
  /\ Keep(<<c, ops, init, mem, lk, loc, it>>)

\* users that lock a split themselves
OStart1(i) ==
  /\ pc[i] = "take" /\ Go(i, "owner")
  /\ Emit([e |-> "OStart", op |-> i, all |-> All(Sp(i)), same |-> TRUE])
  /\ Keep(<<c, ops, init, mem, lk, loc, it>>)
OEnd1(i) ==
  /\ pc[i] = "owner"
  /\ Emit([e |-> "OEnd", op |-> i, all |-> All(Sp(i))])
  /\ mem' = IF ops[i].k = "own" THEN [mem EXCEPT ![K(i)] = IF ops[i].st THEN Val(i) ELSE Absent] ELSE mem
  /\ IF ops[i].k = "own" THEN Go(i, "wunlock") /\ lk' = lk
     ELSE Go(i, "ret") /\ lk' = [lk EXCEPT ![Sp(i)].r = @ - 1]
  /\ Keep(<<c, ops, init, loc, it>>)

\* iteration
ICall1 ==
  /\ it.k # "none" /\ it.pc = "idle"
  /\ it' = [it EXCEPT !.pc = "run"]
  /\ IF it.k = "agg" THEN Same ELSE Emit([e |-> "ICall", k |-> it.k])
  /\ Keep(<<c, ops, init, mem, lk, pc, loc>>)
\* sequentially, or all splits in parallel
MayRun(q) == it.pc = "run" \/ (it.pc = "done" /\ it.k = "srange")
MayRun2(q) == it.k = "range" => (\A r \in Splits : r < q => it.sp[r].pc = "done") /\ ~ it.stop
ILock(q) ==
  /\ MayRun(q) /\ MayRun2(q) /\ it.sp[q].pc = "wait"
  /\ IF Defect \in {"iterNoLock", "aggNoLock"} \/ (Defect = "iterPeek" /\ \A k \in 1 .. NKeys : SplitOf(k) = q => mem[k] = Absent) THEN lk' = lk ELSE CanW(q) /\ lk' = [lk EXCEPT ![q].w = Iter]
  /\ it' = [it EXCEPT !.sp[q] = [pc |-> IF it.k = "agg" THEN "fun" ELSE IF Defect = "skipLast" /\ q = NSplits THEN "unlock" ELSE "loop",
                                 todo |-> { k \in 1 .. NKeys : SplitOf(k) = q /\ mem[k] # Absent }, cur |-> 0]]
  /\ Same /\ Keep(<<c, ops, init, mem, pc, loc>>)
IVisit(q) ==
  /\ it.sp[q].pc = "loop" /\ it.sp[q].todo # {}
  /\ \E k \in it.sp[q].todo :
       /\ it' = [it EXCEPT !.sp[q].pc = "visit", !.sp[q].todo = @ \ {k}, !.sp[q].cur = k]
       /\ IF Defect = "iterNoLock" /\ mem[k] = Absent THEN Same ELSE Emit([e |-> "VStart", key |-> k, v |-> mem[k]])
  /\ Keep(<<c, ops, init, mem, lk, pc, loc>>)
IVisitEnd(q, go) ==
  /\ it.sp[q].pc = "visit" /\ (it.k = "prange" => go)
  /\ it' = [it EXCEPT !.sp[q].pc = IF go /\ Defect = "iterRelease" THEN "release"
                                   ELSE IF go \/ Defect = "noStop" THEN "loop" ELSE "unlock",
                      !.stop = @ \/ (~ go /\ Defect # "noStop")]
  /\ Emit([e |-> "VEnd", key |-> it.sp[q].cur, go |-> go, p |-> FALSE])
  /\ Keep(<<c, ops, init, mem, lk, pc, loc>>)
\* iterRelease: lets operations proceed between two entries
IRelease(q) ==
  /\ it.sp[q].pc = "release"
  /\ it' = [it EXCEPT !.sp[q].pc = "relock"] /\ lk' = [lk EXCEPT ![q].w = 0]
  /\ Same /\ Keep(<<c, ops, init, mem, pc, loc>>)
IRelock(q) ==
  /\ it.sp[q].pc = "relock" /\ CanW(q)
  /\ it' = [it EXCEPT !.sp[q].pc = "loop", !.sp[q].todo = { k \in @ : mem[k] # Absent }]
  /\ lk' = [lk EXCEPT ![q].w = Iter]
  /\ Same /\ Keep(<<c, ops, init, mem, pc, loc>>)
IUnlock(q) ==
  /\ it.sp[q].pc = "unlock" \/ (it.sp[q].pc = "loop" /\ it.sp[q].todo = {})
  /\ it' = [it EXCEPT !.sp[q].pc = "done", !.sp[q].todo = {}]
  /\ lk' = IF lk[q].w = Iter THEN [lk EXCEPT ![q].w = 0] ELSE lk
  /\ Same /\ Keep(<<c, ops, init, mem, pc, loc>>)
\* functions invoked on splits
AStart1(q) ==
  /\ it.sp[q].pc = "fun"
  /\ it' = [it EXCEPT !.sp[q].pc = "infun"]
  /\ Emit([e |-> "AStart", op |-> Iter + q, q |-> q, all |-> All(q), same |-> TRUE])
  /\ Keep(<<c, ops, init, mem, lk, pc, loc>>)
AEnd1(q) ==
  /\ it.sp[q].pc = "infun"
  /\ it' = [it EXCEPT !.sp[q].pc = "unlock"]
  /\ Emit([e |-> "AEnd", op |-> Iter + q, all |-> All(q)])
  /\ Keep(<<c, ops, init, mem, lk, pc, loc>>)
IReturn ==
  /\ it.pc = "run"
  /\ \/ \A q \in Splits : it.sp[q].pc = "done"
     \/ it.k = "range" /\ it.stop /\ \A q \in Splits : it.sp[q].pc \in {"done", "wait"}
     \* stopped at split q, and all splits left of it are done
     \/ it.k = "srange" /\ it.stop /\ \E q \in Splits : it.sp[q].pc = "done" /\ q \in ab.stopAt
                                        /\ \A r \in Splits : r < q => it.sp[r].pc = "done"
  /\ it' = [it EXCEPT !.pc = "done"]
  /\ IF it.k = "agg" THEN Emit([e |-> "Splits", n |-> NSplits]) ELSE Emit([e |-> "IRet", p |-> FALSE])
  /\ Keep(<<c, ops, init, mem, lk, pc, loc>>)

Internal == \/ \E i \in Clients : \/ RLock(i) \/ Read(i) \/ RUnlock(i) \/ Call2(i) \/ RUnlock2(i) \/ PUnlock(i)
                                  \/ WLock(i) \/ Look(i) \/ Store(i) \/ WUnlock(i) \/ Return(i) \/ OStart1(i)
            \/ \E q \in Splits : ILock(q) \/ IVisit(q) \/ IRelease(q) \/ IRelock(q) \/ IUnlock(q) \/ AStart1(q)
            \/ IReturn
User == \/ \E i \in Clients : Call1(i) \/ UserEnd(i) \/ OEnd1(i)
        \/ ICall1 \/ \E q \in Splits : AEnd1(q)
        \/ \E q \in Splits, go \in BOOLEAN : IVisitEnd(q, go)
Next == ab.W # {} /\ (Internal \/ User)
Spec == Init /\ [][Next]_vars

Safe == ab.bad = {}
Progress == ~ ENABLED Internal => Quiesce(c, ab).bad = {}
NoHang == ~ ENABLED Next => ab.ops = NoFun /\ (it.k = "none" \/ it.pc = "done")
=============================================================================
