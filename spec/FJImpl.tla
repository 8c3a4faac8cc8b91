------------------------------- MODULE FJImpl -------------------------------
(* The implementation of fork-join calls: recursive halving, the right half  *)
(* in a new goroutine, the left half in the calling one, a wait group, panics *)
(* recovered in the right half and raised again by the caller. In sequential *)
(* calls, the right half follows the left one, unless this has panicked.     *)
(* FJAbs runs along; its verdicts are the invariants.                        *)
EXTENDS FJAbs, TLC

CONSTANTS MaxN,     \* up to so many functions
          Kinds,    \* subset of {"par", "spec", "seq"}
          Classes,  \* subset of {"do", "and", "or", "red", "sred", "sum"}
          Defect    \* "none", or a defect that the invariants must reveal

VARIABLES c,     \* the call, as in FJAbs
          pc,    \* tree node -> control state
          res,   \* tree node -> result
          ab     \* state of FJAbs
vars == <<c, pc, res, ab>>

\* tree nodes are intervals; the halves of a node with more than one position
Half(x) == (x[2] - x[1]) \div 2
L(x) == <<x[1], x[1] + Half(x)>>
R(x) == <<x[1] + Half(x), x[2]>>
RECURSIVE Tree(_)
Tree(x) == IF x[2] - x[1] < 2 THEN {x} ELSE {x} \cup Tree(L(x)) \cup Tree(R(x))
Root == <<0, c.n>>
Nodes == Tree(Root)
IsLeaf(x) == x[2] - x[1] = 1

None == [o |-> "none"]
Has(x) == res[x].o # "none"

Outcomes == IF c.kind = "spec" THEN {"t", "s", "p"}
            ELSE IF c.cls \in {"and", "or"} THEN {"t", "f", "p"} ELSE {"t", "p"}

Init ==
  /\ c \in { [kind |-> k, cls |-> cl, n |-> n, rng |-> FALSE, lazy |-> FALSE] :
              k \in Kinds, cl \in Classes, n \in 1 .. MaxN }
  /\ c.kind = "spec" => c.cls \in {"and", "or", "sred"}
  /\ c.kind \in {"par", "seq"} => c.cls # "sred"
  /\ pc = [ x \in Nodes |-> IF x = Root THEN "called" ELSE "idle" ]
  /\ res = [ x \in Nodes |-> None ]
  /\ ab = Init0

Emit(e) == ab' = Step(c, ab, e)
Same == ab' = ab

\* the end of the goroutine of a right half; with the defect, it hands its
\* result over to the caller, who may not wait for it any more
IsRight(x) == \E p \in Nodes : ~ IsLeaf(p) /\ R(p) = x
Done(x) == IF Defect = "handover" /\ IsRight(x) THEN "handing" ELSE "done"
Taken(x, y) == IF pc[R(x)] = "handing" THEN [y EXCEPT ![R(x)] = "done"] ELSE y

LeafStart(x) ==
  /\ IsLeaf(x) /\ pc[x] = "called"
  /\ pc' = [pc EXCEPT ![x] = "user"]
  /\ Emit([e |-> "Start", lo |-> x[1], hi |-> x[2]])
  /\ UNCHANGED <<c, res>>

\* the user's function ends
LeafEnd(x, o) ==
  /\ IsLeaf(x) /\ pc[x] = "user"
  /\ pc' = [pc EXCEPT ![x] = Done(x)]
  /\ res' = [res EXCEPT ![x] = [o |-> o, v |-> x, id |-> x[1], w |-> <<x[1]>>,
                                conj |-> o # "f", disj |-> o = "t"]]
  /\ Emit([e |-> "End", lo |-> x[1], hi |-> x[2], o |-> o, err |-> FALSE, rt |-> FALSE])
  /\ UNCHANGED c

Fork(x) ==
  /\ ~ IsLeaf(x) /\ pc[x] = "called"
  /\ pc' = [pc EXCEPT ![x] = "left", ![L(x)] = IF Defect = "rightFirst" THEN "idle" ELSE "called",
                      ![R(x)] = IF Defect = "rightFirst" THEN "called" ELSE IF c.kind = "seq" \/ Defect = "seqRight" THEN "idle" ELSE "called"]
  /\ Same /\ UNCHANGED <<c, res>>

Finish(x, r) == /\ pc' = IF pc[x] \in {"wait", "unwind"} THEN Taken(x, [pc EXCEPT ![x] = Done(x)]) ELSE [pc EXCEPT ![x] = Done(x)]
                /\ res' = [res EXCEPT ![x] = r]

\* the left half has ended
LeftDoneStep(x) ==
  /\ pc[x] = "left" /\ Has(L(x))
  /\ \/ /\ res[L(x)].o = "s"                                 \* stop: do not wait
        /\ Finish(x, res[L(x)])
     \/ /\ res[L(x)].o = "p"
        /\ IF c.kind \in {"spec", "seq"} \/ Defect = "noWait"
           THEN Finish(x, res[L(x)])                           \* panics right away
           ELSE pc' = [pc EXCEPT ![x] = "unwind"] /\ UNCHANGED res \* deferred Wait
     \/ /\ res[L(x)].o \in {"t", "f"}
        /\ pc' = [pc EXCEPT ![x] = "wait", ![R(x)] = IF @ = "idle" THEN "called" ELSE @]
        /\ UNCHANGED res
  /\ Same /\ UNCHANGED c

\* defect: the right half's stop wins although the left half is still running
Eager(x) ==
  /\ Defect = "eagerRight" /\ pc[x] = "left" /\ Has(R(x)) /\ res[R(x)].o = "s"
  /\ Finish(x, res[R(x)]) /\ Same /\ UNCHANGED c

\* defect: the right half comes first
RightFirst(x) ==
  /\ Defect = "rightFirst" /\ pc[x] = "left" /\ Has(R(x)) /\ pc[L(x)] = "idle"
  /\ pc' = [pc EXCEPT ![L(x)] = "called"]
  /\ Same /\ UNCHANGED <<c, res>>

Unwind(x) ==
  /\ pc[x] = "unwind" /\ Has(R(x))
  /\ Finish(x, IF Defect = "rightPanic" /\ res[R(x)].o = "p" THEN res[R(x)] ELSE res[L(x)])
  /\ Same /\ UNCHANGED c

\* the wait group is done
Waited(x) ==
  /\ pc[x] = "wait" /\ Has(R(x))
  /\ IF res[R(x)].o \in {"p", "s"} THEN Finish(x, res[R(x)]) /\ Same
     ELSE IF c.cls \in {"red", "sred"}
     THEN LET l == IF Defect = "swapJoin" THEN res[R(x)].v ELSE res[L(x)].v
              r == IF Defect = "swapJoin" THEN res[L(x)].v ELSE res[R(x)].v
          IN /\ pc' = Taken(x, [pc EXCEPT ![x] = "join"]) /\ UNCHANGED res
             /\ Emit([e |-> "JStart", a |-> l[1], b |-> l[2], c |-> r[1], d |-> r[2]])
     ELSE /\ Finish(x, [o |-> "t", v |-> x, id |-> 0, w |-> res[L(x)].w \o res[R(x)].w,
                        conj |-> res[L(x)].conj /\ res[R(x)].conj, disj |-> res[L(x)].disj \/ res[R(x)].disj])
          /\ Same
  /\ UNCHANGED c

JoinEnd(x, o) ==
  /\ pc[x] = "join" /\ o # "f"
  /\ Finish(x, [o |-> o, v |-> x, id |-> 100 + x[1] + Half(x), w |-> <<>>, conj |-> TRUE, disj |-> FALSE])
  /\ Emit([e |-> "JEnd", a |-> x[1], b |-> x[1] + Half(x), c |-> x[1] + Half(x), d |-> x[2], o |-> o,
           id |-> 100 + x[1] + Half(x), err |-> FALSE, rt |-> FALSE])
  /\ UNCHANGED c

\* the call returns or panics
Return ==
  /\ Has(Root) /\ ~ ab.over
  /\ LET r == res[Root] IN
     Emit(IF r.o = "p" THEN [e |-> "Panic", ids |-> <<r.id>>, err |-> FALSE, rt |-> FALSE]
          ELSE [e |-> "Ret", v |-> r.v, s |-> r.o = "s", w |-> r.w,
                b |-> IF c.kind = "spec" THEN (IF c.cls = "and" THEN r.o # "s" ELSE r.o = "s")
                      ELSE IF c.cls = "and" THEN r.conj ELSE r.disj])
  /\ UNCHANGED <<c, pc, res>>

Internal == \/ \E x \in Nodes : LeafStart(x) \/ Fork(x) \/ LeftDoneStep(x) \/ Eager(x) \/ RightFirst(x) \/ Unwind(x) \/ Waited(x)
            \/ Return
User == \E x \in Nodes, o \in Outcomes : LeafEnd(x, o) \/ JoinEnd(x, o)
Next == Internal \/ User
Spec == Init /\ [][Next]_vars /\ WF_vars(Internal) /\ WF_vars(User)

Safe == ab.bad = {}
\* quiescence: only the user's functions can move
Progress == ~ ENABLED Internal => Quiesce(c, ab).bad = {}
NoHang == ~ ENABLED Next => ab.over
\* no goroutine is left for ever
NoLeak == ~ ENABLED Next => \A x \in Nodes : pc[x] \in {"done", "idle"}
Terminates == <>(ab.over)
=============================================================================
