------------------------------ MODULE PipeImpl ------------------------------
(* The implementation of pipelines: merging of nodes, the fetch loop, the     *)
(* goroutines of the nodes, their channels, and the lock and condition        *)
(* variable of nodes that receive strictly ordered input. PipeAbs runs along. *)
EXTENDS PipeAbs, TLC

CONSTANTS Kinds,    \* node kinds: "ord", "strict", "seq", "par", "lpar"
          Filters,  \* what a node's filter returns: "r" receiver, "z" finalizer, "rz" both, "n" none
          MaxNodes, MaxBatches,
          Trouble,  \* what may happen at any time: "none", "cancel", "err", "serr"
          Defect

NK == [ ord |-> [k |-> "ord", lim |-> 1], strict |-> [k |-> "strict", lim |-> 1], seq |-> [k |-> "seq", lim |-> 1],
        par |-> [k |-> "par", lim |-> 0], own |-> [k |-> "own", lim |-> 0], lpar |-> [k |-> "lpar", lim |-> 2] ]

VARIABLES c, ns,     \* the pipeline, its nodes at run time
          nb, trouble, \* number of batches of the source, trouble
          th,        \* threads: main, workers, and goroutines of parallel nodes
          run, lock, \* per node: next batch to receive, owner of the lock or << >>
          closed,    \* per node: channel is closed
          fz,        \* main: node and finalizer that is to be run
          done, perr, \* the context is done; the error
          ext,       \* state of the external party
          ab
vars == <<c, ns, nb, trouble, th, run, lock, closed, fz, done, perr, ext, ab>>

-----------------------------------------------------------------------------
\* nodes at run time: [k, lim, ordered, rs: receivers, zs: finalizers, ix: index seen by Begin]
RECURSIVE AddAll(_, _), Merge2(_, _)
CanAdd(a, b) == \/ a.k \in {"seq", "ord"} /\ b.k \in {"seq", "ord"}
                \/ a.k = "par" /\ b.k = "par"
                \/ a.k = "lpar" /\ b.k = "lpar" /\ a.lim = b.lim
                \/ a.k = "strict" /\ b.k \in {"seq", "ord", "strict"}
CanMerge2(a, b) == \/ a.k = "par" /\ b.k = "par"
                   \/ a.k = "lpar" /\ b.k = "lpar" /\ a.lim = b.lim
                   \/ a.k = "strict" /\ b.k \in {"seq", "ord", "strict"}
Glue(a, b) == [a EXCEPT !.rs = @ \o b.rs, !.zs = @ \o b.zs,
                        !.k = IF a.k = "seq" /\ b.k = "ord" THEN "ord" ELSE a.k]
AddAll(acc, rest) ==
  IF rest = << >> THEN acc
  ELSE IF acc # << >> /\ CanAdd(acc[Len(acc)], Head(rest))
       THEN AddAll([acc EXCEPT ![Len(acc)] = Glue(@, Head(rest))], Tail(rest))
       ELSE AddAll(Append(acc, Head(rest)), Tail(rest))
Mark(x) == LET S == { i \in 1 .. Len(x) : x[i].k = "strict" }
           IN [ i \in 1 .. Len(x) |-> IF i < MaxOr0(S)
                                      THEN [x[i] EXCEPT !.k = IF @ = "seq" /\ Defect # "lateOrder" THEN "ord" ELSE @, !.ordered = TRUE]
                                      ELSE x[i] ]
Keep(x) == SelectSeq(x, LAMBDA n : n.rs # << >> \/ n.zs # << >> \/ (Defect = "noDrop" /\ n.k = "own"))
Index(x) == [ i \in 1 .. Len(x) |-> [x[i] EXCEPT !.ix = i] ]
Merge2(acc, rest) ==
  IF rest = << >> THEN acc
  ELSE IF acc # << >> /\ CanMerge2(acc[Len(acc)], Head(rest))
       THEN Merge2([acc EXCEPT ![Len(acc)] = Glue(@, Head(rest))], Tail(rest))
       ELSE Merge2(Append(acc, Head(rest)), Tail(rest))

Raw(cc) == [ i \in 1 .. Len(cc.nodes) |->
             [k |-> cc.nodes[i].k, lim |-> cc.nodes[i].lim, ordered |-> FALSE, ix |-> 0,
              id |-> i, rs |-> IF cc.flt[i].r THEN <<i>> ELSE << >>, zs |-> IF cc.flt[i].z THEN <<i>> ELSE << >>] ]
Nodes(cc) == Merge2(<< >>, Index(Keep(Mark(AddAll(<< >>, Raw(cc))))))
\* the kind of node that filter f is told
Told(cc, f) == LET x == Mark(AddAll(<< >>, Raw(cc)))
                   B(n) == IF n.k = "strict" THEN "ord" ELSE IF n.k \in {"lpar", "own"} THEN "par" ELSE n.k
                   S == [ i \in 1 .. Len(cc.nodes) |-> cc.nodes[i] ]
                   At(i) == CHOOSE j \in 1 .. Len(x) :
                              \E m \in 1 .. Len(cc.nodes) : m = i /\ Len(AddAll(<< >>, SubSeq(Raw(cc), 1, i))) = j
               IN B(x[At(f)])

Main == <<0, 0, "m">>
Worker(n, i) == <<n, i, "w">>
Token(n, q) == <<n, q, "t">>
Idle == [pc |-> "idle", n |-> 0, ri |-> 0, q |-> 0, d |-> << >>, stash |-> {}, open |-> << >>]
NW(n) == IF n.k = "lpar" THEN (IF Defect = "limit" THEN n.lim + 1 ELSE n.lim) ELSE 1
Threads(x) == UNION { { Worker(i, j) : j \in 1 .. (IF x[i].k \in {"par", "own"} THEN 0 ELSE NW(x[i])) } : i \in 1 .. Len(x) }

RECURSIVE ToldAll(_, _, _)
ToldAll(cc, s, f) ==
  IF f > Len(cc.flt) THEN s
  ELSE LET s1 == Step(cc, s, [e |-> "Flt", f |-> f, k |-> Told(cc, f)])
           s2 == IF cc.nodes[f].k = "own" THEN Step(cc, s1, [e |-> "NBegin", n |-> f, keep |-> cc.flt[f].r \/ cc.flt[f].z]) ELSE s1
       IN ToldAll(cc, s2, f + 1)

Init ==
  /\ \E m \in 1 .. MaxNodes : \E k \in [1 .. m -> Kinds], w \in [1 .. m -> Filters] :
       c = [nodes |-> [i \in 1 .. m |-> NK[k[i]]],
            flt |-> [i \in 1 .. m |-> [node |-> i, r |-> w[i] \in {"r", "rz"}, z |-> w[i] \in {"z", "rz"}]]]
  /\ ns = Nodes(c)
  /\ nb \in 0 .. MaxBatches
  /\ trouble \in Trouble
  /\ th = [ t \in Threads(ns) |-> [Idle EXCEPT !.n = t[1]] ] @@ (Main :> [Idle EXCEPT !.pc = IF ns = << >> THEN "fin" ELSE "fetch"])
  /\ run = [i \in 1 .. Len(ns) |-> 0] /\ lock = [i \in 1 .. Len(ns) |-> << >>] /\ closed = [i \in 1 .. Len(ns) |-> FALSE]
  /\ fz = <<1, 0>> /\ done = FALSE /\ perr = 0 /\ ext = "idle"
  /\ ab = ToldAll(c, Step(c, Init0(c), [e |-> "Prep", ok |-> TRUE]), 1)

Emit(e) == ab' = Step(c, ab, e)
Same == UNCHANGED ab
Fixed == UNCHANGED <<c, ns, nb, trouble>>
T == DOMAIN th
Set(t, r) == th' = [th EXCEPT ![t] = r]
Strict(n) == ns[n].k = "strict" \/ (ns[n].k = "lpar" /\ ns[n].ordered)

-----------------------------------------------------------------------------
(* the fetch loop *)
Fetch ==
  /\ th[Main].pc = "fetch"
  /\ IF done /\ Defect # "fetchOn" THEN Set(Main, [th[Main] EXCEPT !.pc = "fin"]) /\ Same
     ELSE Set(Main, [th[Main] EXCEPT !.pc = "fetching"]) /\ Emit([e |-> "Fetch"])
  /\ Fixed /\ UNCHANGED <<run, lock, closed, fz, done, perr, ext>>
FetchEnd ==
  /\ th[Main].pc = "fetching"
  /\ LET q == ab.fetched IN
       IF q < nb THEN /\ Set(Main, [pc |-> "feed", n |-> 1, ri |-> 0, q |-> q, d |-> <<q>>, stash |-> {}, open |-> << >>])
                        /\ ab' = Step(c, Step(c, ab, [e |-> "Fetched", n |-> 1]), [e |-> "Data"])
       ELSE Set(Main, [th[Main] EXCEPT !.pc = "fin"]) /\ Emit([e |-> "Fetched", n |-> 0])
  /\ Fixed /\ UNCHANGED <<run, lock, closed, fz, done, perr, ext>>
Check ==
  /\ th[Main].pc = "check"
  /\ \/ /\ trouble = "serr" /\ perr = 0 /\ th[Main].q = nb - 1 \* the source fails with its last batch
        /\ perr' = 99 /\ done' = TRUE
        /\ Emit([e |-> "SErr"])
        /\ Set(Main, [th[Main] EXCEPT !.pc = "ret"])
     \/ /\ ~ (trouble = "serr" /\ perr = 0 /\ th[Main].q = nb - 1)
        /\ Set(Main, [th[Main] EXCEPT !.pc = IF perr # 0 THEN "ret" ELSE "fetch"])
        /\ Same /\ UNCHANGED <<perr, done>>
  /\ Fixed /\ UNCHANGED <<run, lock, closed, fz, ext>>

-----------------------------------------------------------------------------
(* thread t, which is to feed its batch to node th[t].n *)
Home(t, x) == \* where a thread goes on after its batch is passed on
  CASE x.open # << >> -> [x EXCEPT !.pc = "unwind"] \* within nodes of the user
    [] t = Main -> [x EXCEPT !.pc = "check"]
    [] t[3] = "t" -> [x EXCEPT !.pc = "dead"]
    [] t[3] = "w" /\ ns[t[1]].k = "ord" -> [x EXCEPT !.pc = "next", !.n = t[1]]
    [] OTHER -> [x EXCEPT !.pc = "idle", !.n = t[1]]

Feed(t) ==
  /\ th[t].pc = "feed"
  /\ LET n == th[t].n IN
       IF n > Len(ns) THEN Set(t, Home(t, th[t]))
       ELSE IF ns[n].k = "par"
       THEN th' = [ x \in T \cup {Token(n, th[t].q)} |->
                    IF x = t THEN Home(t, th[t])
                    ELSE IF x = Token(n, th[t].q) THEN [th[t] EXCEPT !.pc = "start", !.open = << >>] ELSE th[x] ]
       ELSE IF ns[n].k = "own" THEN Set(t, [th[t] EXCEPT !.pc = "recv", !.ri = 1, !.open = Append(@, n)])
       ELSE Set(t, [th[t] EXCEPT !.pc = IF Strict(n) THEN "lock" ELSE "send"])
  /\ IF th[t].n <= Len(ns) /\ ns[th[t].n].k = "own" THEN Emit([e |-> "NFeed", n |-> ns[th[t].n].id, q |-> th[t].q]) ELSE Same
  /\ Fixed /\ UNCHANGED <<run, lock, closed, fz, done, perr, ext>>
Unwind(t) ==
  /\ th[t].pc = "unwind"
  /\ LET o == th[t].open IN
       /\ Set(t, Home(t, [th[t] EXCEPT !.open = SubSeq(o, 1, Len(o) - 1)]))
       /\ Emit([e |-> "NFed", n |-> ns[o[Len(o)]].id, q |-> th[t].q])
  /\ Fixed /\ UNCHANGED <<run, lock, closed, fz, done, perr, ext>>
GiveUp(t) == \* while sending
  /\ th[t].pc = "send" /\ done
  /\ Set(t, Home(t, th[t]))
  /\ lock' = IF Strict(th[t].n) THEN [lock EXCEPT ![th[t].n] = << >>] ELSE lock
  /\ Same /\ Fixed /\ UNCHANGED <<run, closed, fz, done, perr, ext>>
Lock(t) ==
  /\ th[t].pc = "lock" /\ lock[th[t].n] = << >>
  /\ lock' = [lock EXCEPT ![th[t].n] = t]
  /\ Set(t, [th[t] EXCEPT !.pc = IF run[th[t].n] = th[t].q THEN "send" ELSE "chk"])
  /\ Same /\ Fixed /\ UNCHANGED <<run, closed, fz, done, perr, ext>>
Chk(t) ==
  /\ th[t].pc = "chk"
  /\ IF done THEN Set(t, Home(t, th[t])) /\ lock' = [lock EXCEPT ![th[t].n] = << >>]
     ELSE Set(t, [th[t] EXCEPT !.pc = "wait"]) /\ lock' = lock
  /\ Same /\ Fixed /\ UNCHANGED <<run, closed, fz, done, perr, ext>>
Wait(t) == \* waits for the condition: releases the lock
  /\ th[t].pc = "wait"
  /\ Set(t, [th[t] EXCEPT !.pc = "cond"]) /\ lock' = [lock EXCEPT ![th[t].n] = << >>]
  /\ Same /\ Fixed /\ UNCHANGED <<run, closed, fz, done, perr, ext>>
Woken(n, x) == IF x.pc = "cond" /\ x.n = n THEN [x EXCEPT !.pc = "lock"] ELSE x

(* worker w of node n *)
Ready(w) == w[3] = "w" /\ th[w].pc = "idle"
Receive(w) ==
  /\ Ready(w)
  /\ \E t \in T :
       /\ th[t].pc = "send" /\ th[t].n = w[1]
       /\ LET n == w[1]
              q == th[t].q
              new == CASE ns[n].k = "ord" /\ Defect # "noStash" ->
                            IF q = run[n] THEN [th[w] EXCEPT !.pc = "recv", !.q = q, !.d = th[t].d, !.ri = 1, !.n = n]
                            ELSE [th[w] EXCEPT !.stash = @ \cup {<<q, th[t].d>>}]
                       [] Strict(n) -> [th[w] EXCEPT !.pc = "step", !.q = q, !.d = th[t].d, !.ri = 1, !.n = n]
                       [] OTHER -> [th[w] EXCEPT !.pc = "recv", !.q = q, !.d = th[t].d, !.ri = 1, !.n = n]
          IN /\ th' = [th EXCEPT ![w] = new, ![t] = Home(t, th[t])]
             /\ lock' = IF Strict(n) THEN [lock EXCEPT ![n] = << >>] ELSE lock
  /\ Same /\ Fixed /\ UNCHANGED <<run, closed, fz, done, perr, ext>>
StepRun(w) == \* a strictly ordered batch was received
  /\ th[w].pc = "step" /\ lock[w[1]] = << >>
  /\ run' = [run EXCEPT ![w[1]] = @ + 1]
  /\ th' = [ x \in T |-> IF x = w THEN [th[w] EXCEPT !.pc = "recv"] ELSE Woken(w[1], th[x]) ]
  /\ Same /\ Fixed /\ UNCHANGED <<lock, closed, fz, done, perr, ext>>
NextStash(w) ==
  /\ th[w].pc = "next"
  /\ IF done THEN Set(w, [th[w] EXCEPT !.pc = "dead"]) /\ run' = run
     ELSE LET r == run[w[1]] + 1
              S == { x \in th[w].stash : x[1] = r }
          IN /\ run' = [run EXCEPT ![w[1]] = r]
             /\ Set(w, IF S = {} THEN [th[w] EXCEPT !.pc = "idle"]
                       ELSE [th[w] EXCEPT !.pc = "recv", !.q = r, !.d = (CHOOSE x \in S : TRUE)[2], !.ri = 1, !.n = w[1],
                                          !.stash = @ \ S])
  /\ Same /\ Fixed /\ UNCHANGED <<lock, closed, fz, done, perr, ext>>
WorkerEnd(w) ==
  /\ Ready(w)
  /\ \/ closed[w[1]] /\ Set(w, [th[w] EXCEPT !.pc = "dead"])
     \/ /\ done /\ Strict(w[1]) /\ (lock[w[1]] = << >> \/ Defect = "lostWakeup")
        /\ th' = [ x \in T |-> IF x = w THEN [th[w] EXCEPT !.pc = "dead"] ELSE Woken(w[1], th[x]) ]
     \/ done /\ ~ Strict(w[1]) /\ Set(w, [th[w] EXCEPT !.pc = "dead"])
  /\ Same /\ Fixed /\ UNCHANGED <<run, lock, closed, fz, done, perr, ext>>
TokenStart(t) ==
  /\ th[t].pc = "start"
  /\ Set(t, IF done THEN [th[t] EXCEPT !.pc = "dead"] ELSE [th[t] EXCEPT !.pc = "recv", !.ri = 1])
  /\ Same /\ Fixed /\ UNCHANGED <<run, lock, closed, fz, done, perr, ext>>

(* receivers *)
Recv(t) ==
  /\ th[t].pc = "recv"
  /\ LET n == th[t].n IN
       IF th[t].ri > Len(ns[n].rs)
       THEN Set(t, [th[t] EXCEPT !.pc = "feed", !.n = (IF Defect = "staleIndex" /\ ns[n].k \notin {"par", "own"} THEN ns[n].ix ELSE n) + 1]) /\ Same
       ELSE Set(t, [th[t] EXCEPT !.pc = "user"]) /\ Emit([e |-> "Start", f |-> ns[n].rs[th[t].ri], q |-> th[t].q, d |-> th[t].d])
  /\ Fixed /\ UNCHANGED <<run, lock, closed, fz, done, perr, ext>>
RecvEnd(t) ==
  /\ th[t].pc = "user"
  /\ LET f == ns[th[t].n].rs[th[t].ri]
         d2 == Append(th[t].d, f + 10)
     IN /\ Set(t, [th[t] EXCEPT !.pc = "recv", !.ri = @ + 1, !.d = d2])
        /\ Emit([e |-> "End", f |-> f, q |-> th[t].q, d |-> d2])
  /\ Fixed /\ UNCHANGED <<run, lock, closed, fz, done, perr, ext>>

-----------------------------------------------------------------------------
(* the end of the run *)
NodeDone(n) == \/ Defect = "endEarly"
               \/ \A t \in T : (t[3] = "w" /\ t[1] = n) \/ (t[3] = "t" /\ t[1] = n) => th[t].pc = "dead"
Fin ==
  /\ th[Main].pc = "fin"
  /\ IF fz[1] > Len(ns) THEN Set(Main, [th[Main] EXCEPT !.pc = "ret"]) /\ UNCHANGED <<closed, fz>> /\ Same
     ELSE IF ~ closed[fz[1]]
          THEN /\ closed' = [closed EXCEPT ![fz[1]] = TRUE] /\ UNCHANGED <<th, fz>>
               /\ IF ns[fz[1]].k = "own" THEN Emit([e |-> "NEnd", n |-> ns[fz[1]].id]) ELSE Same
     ELSE /\ NodeDone(fz[1])
          /\ UNCHANGED closed
          /\ IF fz[2] = Len(ns[fz[1]].zs) THEN fz' = <<fz[1] + 1, 0>> /\ UNCHANGED th /\ Same
             ELSE /\ fz' = <<fz[1], fz[2] + 1>> /\ Set(Main, [th[Main] EXCEPT !.pc = "final"])
                  /\ Emit([e |-> "FStart", f |-> ns[fz[1]].zs[fz[2] + 1]])
  /\ Fixed /\ UNCHANGED <<run, lock, done, perr, ext>>
FinEnd ==
  /\ th[Main].pc = "final"
  /\ Set(Main, [th[Main] EXCEPT !.pc = "fin"])
  /\ Emit([e |-> "FEnd", f |-> ns[fz[1]].zs[fz[2]]])
  /\ Fixed /\ UNCHANGED <<run, lock, closed, fz, done, perr, ext>>
\* the error of the source is taken over at the end
SrcErr == /\ th[Main].pc = "ret" /\ trouble = "serr" /\ perr = 0 /\ (ns = << >> \/ nb = 0)
          /\ perr' = 99 /\ Emit([e |-> "SErr"]) /\ Fixed /\ UNCHANGED <<th, run, lock, closed, fz, done, ext>>
Return ==
  /\ th[Main].pc = "ret" /\ ~ (trouble = "serr" /\ perr = 0 /\ (ns = << >> \/ nb = 0))
  /\ Set(Main, [th[Main] EXCEPT !.pc = "over"])
  /\ ab' = Step(c, Step(c, ab, [e |-> "Ret"]), [e |-> "RErr", r |-> perr])
  /\ Fixed /\ UNCHANGED <<run, lock, closed, fz, done, perr, ext>>

(* the external party *)
Ext ==
  /\ \/ /\ ext = "idle" /\ trouble = "cancel" /\ ext' = "cancelling" /\ Emit([e |-> "CStart"]) /\ UNCHANGED <<done, perr>>
     \/ /\ ext = "cancelling" /\ done' = TRUE /\ ext' = "cend" /\ Same /\ UNCHANGED perr
     \/ /\ ext = "cend" /\ ext' = "over" /\ Emit([e |-> "CEnd", ctx |-> done]) /\ UNCHANGED <<done, perr>>
     \/ /\ ext = "idle" /\ trouble \in {"err", "serr"} /\ ext' = "setting" /\ Emit([e |-> "SStart", id |-> 1]) /\ UNCHANGED <<done, perr>>
     \/ /\ ext = "setting" /\ perr' = (IF perr = 0 THEN 1 ELSE perr) /\ ext' = (IF perr = 0 THEN "set" ELSE "failed") /\ Same /\ UNCHANGED done
     \/ /\ ext = "set" /\ done' = TRUE /\ ext' = "send" /\ Same /\ UNCHANGED perr
     \/ /\ ext = "send" /\ ext' = "over" /\ Emit([e |-> "SEnd", id |-> 1, ok |-> TRUE, ctx |-> done]) /\ UNCHANGED <<done, perr>>
     \/ /\ ext = "failed" /\ ext' = "over" /\ Emit([e |-> "SEnd", id |-> 1, ok |-> FALSE, ctx |-> done]) /\ UNCHANGED <<done, perr>>
  /\ Fixed /\ UNCHANGED <<th, run, lock, closed, fz>>

ExtInternal == ext \notin {"idle", "over"} /\ Ext
Internal == \/ Fetch \/ Check \/ Fin \/ SrcErr \/ Return \/ ExtInternal
            \/ \E t \in T : \/ Feed(t) \/ GiveUp(t) \/ Lock(t) \/ Chk(t) \/ Wait(t) \/ Receive(t) \/ StepRun(t)
                            \/ NextStash(t) \/ WorkerEnd(t) \/ Unwind(t) \/ TokenStart(t) \/ Recv(t)
User == \/ FetchEnd \/ FinEnd \/ \E t \in T : RecvEnd(t)
        \/ (ext = "idle" /\ th[Main].pc # "over" /\ Ext)
Next == Internal \/ User
Spec == Init /\ [][Next]_vars

Safe == ab.bad = {}
Progress == ~ ENABLED Internal => Quiesce(c, ab).bad = {}
\* nothing remains to be done: the run is over, and so are its goroutines once
\* the context is done
NoHang == ~ ENABLED Next => /\ th[Main].pc = "over"
                            /\ \A t \in T : th[t].pc \in {"dead", "over", "idle"}
=============================================================================
