------------------------------- MODULE PipeAbs -------------------------------
(* Abstract specification of pipelines: an acceptor of the events that a      *)
(* source, filters, finalizers and cancelling or failing parties see.         *)
(*                                                                            *)
(* c: [nodes: << [k: "ord"|"strict"|"seq"|"par"|"lpar"|"own", lim] >>,        *)
(*     flt: << [node, r: has a receiver, z: has a finalizer] >>]              *)
(* Filters are numbered in chain order. Batches are numbered from 0. A batch  *)
(* of data is a sequence of numbers: it starts as << number of the batch >>;  *)
(* every receiver passes on what it likes. Nodes of kind "own" are not the    *)
(* library's own: they process batches in the goroutines that feed them, and  *)
(* tell their filters that they are parallel.                                 *)
(* Optional in c: size (that the source announces), and std for filters that  *)
(* do not tell when they are called.                                          *)
EXTENDS Integers, Sequences, FiniteSets

V(cond, p) == IF cond THEN {} ELSE {p}
Tag(cond, P) == IF cond THEN {} ELSE P

F(c) == 1 .. Len(c.flt)
RF(c) == { f \in F(c) : c.flt[f].r }
ZF(c) == { f \in F(c) : c.flt[f].z }
Node(c, f) == c.nodes[c.flt[f].node]
MaxOr0(S) == IF S = {} THEN 0 ELSE CHOOSE m \in S : \A x \in S : x <= m
MinOf(S) == CHOOSE m \in S : \A x \in S : m <= x
\* the receiver before f, or 0: the source
Prev(c, f) == MaxOr0({ g \in RF(c) : g < f })

Init0(c) ==
  [ told |-> [f \in F(c) |-> "none"],   \* kind of node that filter f was told
    st   |-> [f \in F(c) |-> << >>],    \* batches whose invocation of f has started, in order
    out  |-> [f \in F(c) |-> {}],       \* <<batch, data>> passed on by f
    act  |-> {},                        \* invocations in progress: <<f, batch>>
    fin  |-> [f \in F(c) |-> "no"],     \* state of the finalizer of f
    fetched |-> 0,                      \* number of non-empty batches fetched
    fopen |-> FALSE,                    \* a fetch is in progress
    dry  |-> FALSE,                     \* a fetch has returned 0
    can  |-> 0,                         \* cancellation: 1 may, 2 must have taken effect
    after |-> 0,                        \* fetches started since can = 2
    serr |-> FALSE,                     \* the source has reported its error
    errs |-> {},                        \* attempts to set an error that have started
    late |-> {},                        \* those that started after another one had ended
    ends |-> {},                        \* those that have ended
    win  |-> 0,                         \* the one that succeeded
    rep  |-> {},                        \* errors that may be reported after the run
    ret  |-> FALSE,                     \* the run has returned
    prep |-> FALSE,                     \* the source has been prepared
    pend |-> FALSE,                     \* a batch was fetched, but not yet taken
    size |-> IF "size" \in DOMAIN c THEN c.size ELSE -1, \* as left by the last filter
    own  |-> [n \in 1 .. Len(c.nodes) |-> [beg |-> "no", fed |-> {}, open |-> {}, end |-> FALSE]], \* nodes of the user
    bad  |-> {} ]

Range(q) == { q[i] : i \in 1 .. Len(q) }
Started(s, f) == Range(s.st[f])
DataOf(X, q) == (CHOOSE x \in X : x[1] = q)[2]
HasOut(s, f, q) == \E x \in s.out[f] : x[1] = q

\* what receiver f must be given for batch q
Available(c, s, f, q) == IF Prev(c, f) = 0 THEN q < s.fetched ELSE HasOut(s, Prev(c, f), q)
Input(c, s, f, q) == IF Prev(c, f) = 0 THEN <<q>> ELSE DataOf(s.out[Prev(c, f)], q)

Failing(s) == s.errs # {} \/ s.serr
Undisturbed(s) == s.can = 0 /\ ~ Failing(s)

IsOrd(c, s, f) == Node(c, f).k \in {"ord", "strict"} \/ s.told[f] = "ord"
IsSeq(c, s, f) == IsOrd(c, s, f) \/ Node(c, f).k = "seq" \/ s.told[f] = "seq"

\* receivers in the same node, first and last one
Mates(c, f) == { g \in RF(c) : c.flt[g].node = c.flt[f].node }
\* batches in progress in the node of f
InNode(c, s, f) ==
  LET M == Mates(c, f)
      a == MinOf(M)
      z == MaxOr0(M)
  IN (IF Undisturbed(s) THEN { q \in Started(s, a) : ~ HasOut(s, z, q) } ELSE {})
     \cup { x[2] : x \in { y \in s.act : y[1] \in M } }

Limit(c, f) == IF Node(c, f).k = "lpar" THEN Node(c, f).lim
               ELSE IF Node(c, f).k \in {"par", "own"} THEN 1000000 ELSE 1

StartBad(c, s, e) ==
  LET f == e.f
      q == e.q
      own == InNode(c, s, f) \cup {q}
  IN Tag(/\ q \notin Started(s, f)
         /\ Available(c, s, f, q)
         /\ Available(c, s, f, q) => e.d = Input(c, s, f, q),
         IF Undisturbed(s) THEN {"C16"} ELSE {"C16", "C21"})
     \cup V(IsOrd(c, s, f) => q = Len(s.st[f]), "C17")
     \cup V(/\ Cardinality(own) <= Limit(c, f)
            /\ IsSeq(c, s, f) => ~ \E x \in s.act : x[1] = f, "C18")
     \* filters rely on what they were told
     \cup V(/\ s.told[f] = "ord" => q = Len(s.st[f])
            /\ s.told[f] \in {"ord", "seq"} => ~ \E x \in s.act : x[1] = f, "C28")
     \cup V(s.ret => Failing(s), "C19")
     \cup V(s.fin[f] = "no", "C20")

-----------------------------------------------------------------------------
(* When everything that can happen without the user's functions has happened *)

\* batches that have reached receiver f of a parallel or limited parallel node
Arrived(c, s, f) ==
  LET p == Prev(c, f)
      between == { n \in 1 .. Len(c.nodes) : n < c.flt[f].node /\ (p = 0 \/ n > c.flt[p].node)
                                             /\ c.nodes[n].k # "par" }
      Av == { q \in 0 .. (s.fetched - 1) : Available(c, s, f, q) }
  IN IF between = {} THEN Av ELSE { q \in Av : (0 .. q) \subseteq Av }

\* batches that hold a goroutine of the limited parallel node of f
Holding(c, s, f) ==
  LET next == { g \in RF(c) : g > f /\ ~ (Node(c, g).k = "lpar" /\ Node(c, g).lim = Node(c, f).lim) }
      own == { g \in RF(c) : g >= f /\ (next # {} => g < MinOf(next)) }
  IN { q \in Started(s, f) : IF next # {} THEN q \notin Started(s, MinOf(next))
                             ELSE ~ HasOut(s, MaxOr0(own), q) }

\* the longest run of limited parallel nodes (and nodes without receivers) that ends at f's
First(c, f) ==
  LET other == { g \in RF(c) : g < f /\ ~ (Node(c, g).k = "lpar" /\ Node(c, g).lim = Node(c, f).lim) }
  IN MinOf({ g \in RF(c) : g > MaxOr0(other) })

MustRun(c, s, f) ==
  CASE Node(c, f).k = "par" -> Arrived(c, s, f) \subseteq Started(s, f)
    [] Node(c, f).k = "lpar" ->
         \/ \E n \in 1 .. Len(c.nodes) : n > c.flt[f].node /\ c.nodes[n].k \in {"strict", "own"}
         \/ Arrived(c, s, f) \subseteq Started(s, f)
         \/ Cardinality(Holding(c, s, First(c, f))) >= Node(c, f).lim
    [] OTHER -> TRUE

Quiesce(c, s) ==
  [s EXCEPT !.bad = @ \cup V((Undisturbed(s) /\ ~ s.ret) => \A f \in RF(c) : MustRun(c, s, f), "C18")]

-----------------------------------------------------------------------------
(* Protocols of filters, nodes of the user, and the source (C28).             *)
Std(c, f) == "std" \in DOMAIN c.flt[f] /\ c.flt[f].std
ToldKinds(k) == CASE k \in {"ord", "strict"} -> {"ord"}
                  [] k = "seq" -> {"seq", "ord"}
                  [] k = "par" \/ k = "own" -> {"par"}
                  [] OTHER -> {"par", "ord"}
OwnNodes(c) == { n \in 1 .. Len(c.nodes) : c.nodes[n].k = "own" }
FltOk(c, s, e) ==
  LET f == e.f IN
  /\ s.prep /\ s.fetched = 0 /\ ~ s.fopen /\ ~ s.dry
  /\ \A g \in F(c) : (s.told[g] # "none") <=> (g < f /\ ~ Std(c, g))
  /\ \A n \in OwnNodes(c) : (s.own[n].beg # "no") <=> (n < c.flt[f].node)
  /\ e.k \in ToldKinds(Node(c, f).k)
  /\ "sz" \in DOMAIN e => e.same /\ e.sz = s.size
AllBegun(c, s) == /\ s.prep
                  /\ \A f \in F(c) : Std(c, f) \/ s.told[f] # "none"
                  /\ \A n \in OwnNodes(c) : s.own[n].beg # "no"
NBeginOk(c, s, e) ==
  /\ s.prep /\ s.own[e.n].beg = "no" /\ ~ s.fopen /\ ~ s.dry /\ s.fetched = 0
  /\ \A g \in F(c) : c.flt[g].node <= e.n => Std(c, g) \/ s.told[g] # "none"
  /\ \A g \in F(c) : c.flt[g].node > e.n => s.told[g] = "none"
  /\ \A n \in OwnNodes(c) : (s.own[n].beg # "no") <=> (n < e.n)
NFeedOk(c, s, e) == s.own[e.n].beg = "keep" /\ ~ s.own[e.n].end /\ e.q \notin s.own[e.n].fed
NEndOk(c, s, e) == /\ s.own[e.n].beg = "keep" /\ ~ s.own[e.n].end
                   /\ Failing(s) \/ s.own[e.n].open = {}
                   /\ Undisturbed(s) => s.own[e.n].fed = 0 .. (s.fetched - 1)

-----------------------------------------------------------------------------
ReturnBad(c, s, e) ==
  LET all == 0 .. (s.fetched - 1)
  IN V(Undisturbed(s) => \A f \in RF(c) : { x[1] : x \in s.out[f] } = all, "C16")
     \cup V(Failing(s) \/ (s.act = {} /\ \A f \in ZF(c) : s.fin[f] = "done"), "C19")
     \cup V(Failing(s) \/ \A f \in ZF(c) : s.fin[f] = "done", "C20")
     \cup V(/\ Failing(s) \/ \A n \in OwnNodes(c) : s.own[n].beg = "keep" => s.own[n].end
            /\ AllBegun(c, s)  \* also when errors are set meanwhile
            /\ Undisturbed(s) => ~ s.pend, "C28")

\* the errors that the pipeline may report after the run (99: that of the source)
Reports(s) == IF s.win # 0 THEN {s.win}
              ELSE IF s.errs \ s.ends # {} THEN s.errs \cup {IF s.serr THEN 99 ELSE 0}
              ELSE IF s.serr THEN {99} ELSE {0}

(* A run with very many batches (c.nb, or -1: endless), in which at most one  *)
(* receiver cancels or fails, or the source does (c.trouble; e.trouble: this  *)
(* has happened). One event summarizes the run: what every filter and node    *)
(* saw, and what the source did. If c.hold = "all", receiver c.at had e.held  *)
(* batches in progress when nothing else could happen.                        *)
Big(c, s, e) ==
  LET calm == ~ e.trouble
      failing == e.trouble /\ c.trouble \in {"err", "serr"}
      flt(f) ==
        LET x == e.flt[f]
            k == Node(c, f).k
        IN (IF c.flt[f].r
            THEN Tag(/\ ~ x.dup /\ ~ x.wrong /\ (calm => x.n = e.fetched),
                     IF calm THEN {"C16"} ELSE {"C16", "C21"})
                 \cup V(k \in {"ord", "strict"} \/ x.told = "ord" => ~ x.unord, "C17")
                 \cup V(k \in {"ord", "strict"} => x.told = "ord", "C17")
                 \cup V(k \in {"ord", "strict", "seq"} \/ x.told # "par" => x.over <= 1, "C18")
                 \cup V((x.told = "ord" => ~ x.unord) /\ (x.told # "par" => x.over <= 1) /\ x.told \in ToldKinds(k), "C28")
                 \cup V(failing \/ ~ x.late, "C19")
            ELSE {})
           \cup (IF c.flt[f].z
                 THEN V(failing \/ (x.fin = 1 /\ ~ x.late), "C19")
                      \cup V(/\ x.fins <= 1
                             /\ failing \/ x.fin = 1
                             /\ ~ x.early /\ ~ x.overlap, "C20")
                 ELSE {})
      node(n) ==
        LET x == e.node[n]
            k == c.nodes[n].k
        IN V(calm => x.over <= (CASE k = "lpar" -> c.nodes[n].lim
                                  [] k \in {"par", "own"} -> e.fetched
                                  [] OTHER -> 1), "C18")
           \cup (IF k = "own" THEN V(~ x.bad /\ (failing \/ x.ended = 1), "C28") ELSE {})
      free == ~ \E n \in 1 .. Len(c.nodes) : n > c.flt[c.at].node /\ c.nodes[n].k \in {"strict", "own"}
      must == CASE Node(c, c.at).k = "par" -> e.held = c.nb
                [] Node(c, c.at).k = "lpar" /\ free -> e.held >= Node(c, c.at).lim \/ e.held = c.nb
                [] OTHER -> TRUE
      bad == UNION { flt(f) : f \in F(c) }
             \cup UNION { node(n) : n \in 1 .. Len(c.nodes) }
             \cup V(calm => e.fetched = c.nb, "C16")
             \cup V(failing \/ e.act = 0, "C19")
             \cup V(e.after <= 1, "C21")
             \cup V(/\ ~ e.setbad
                    /\ e.err = (IF ~ failing THEN 0 ELSE IF c.trouble = "err" THEN 1 ELSE 99), "C21")
             \cup V(~ e.fbad, "C22")
             \cup V(e.begun /\ ~ e.pbad, "C28")
             \cup V(c.hold = "all" => must, "C18")
  IN [s EXCEPT !.ret = TRUE, !.bad = @ \cup bad]

Step(c, s, e) ==
  CASE e.e = "Big" -> Big(c, s, e)
    [] e.e = "Flt" ->
         [s EXCEPT !.told[e.f] = e.k,
                   !.size = IF "set" \in DOMAIN e THEN e.set ELSE @,
                   !.bad = @ \cup V(Node(c, e.f).k \in {"ord", "strict"} => e.k = "ord", "C17")
                             \cup V(FltOk(c, s, e), "C28")]
    [] e.e = "Prep" -> [s EXCEPT !.prep = TRUE, !.bad = @ \cup V(~ s.prep /\ e.ok, "C28")]
    [] e.e = "Data" -> [s EXCEPT !.pend = FALSE, !.bad = @ \cup V(s.fetched > 0 /\ ~ s.fopen, "C28")]
    [] e.e = "NBegin" -> [s EXCEPT !.own[e.n].beg = IF e.keep THEN "keep" ELSE "out", !.bad = @ \cup V(NBeginOk(c, s, e), "C28")]
    [] e.e = "NFeed" -> [s EXCEPT !.own[e.n].fed = @ \cup {e.q}, !.own[e.n].open = @ \cup {e.q},
                                  !.bad = @ \cup V(NFeedOk(c, s, e), "C28")]
    [] e.e = "NFed" -> [s EXCEPT !.own[e.n].open = @ \ {e.q}]
    [] e.e = "NEnd" -> [s EXCEPT !.own[e.n].end = TRUE, !.bad = @ \cup V(NEndOk(c, s, e), "C28")]
    [] e.e = "Fetch" ->
         [s EXCEPT !.fopen = TRUE, !.after = IF s.can = 2 THEN @ + 1 ELSE @,
                   !.bad = @ \cup V(~ s.fopen /\ ~ s.dry /\ ~ s.ret, "C22")
                             \cup V(s.can = 2 => s.after = 0, "C21")
                             \cup V(AllBegun(c, s) /\ ~ s.pend, "C28")]
    [] e.e = "Fetched" ->
         [s EXCEPT !.fopen = FALSE, !.dry = e.n = 0, !.pend = e.n > 0, !.fetched = IF e.n > 0 THEN @ + 1 ELSE @]
    [] e.e = "Start" ->
         [s EXCEPT !.bad = @ \cup StartBad(c, s, e),
                   !.st[e.f] = Append(@, e.q),
                   !.act = @ \cup {<<e.f, e.q>>}]
    [] e.e = "End" ->
         [s EXCEPT !.act = @ \ {<<e.f, e.q>>},
                   !.out[e.f] = IF HasOut(s, e.f, e.q) THEN @ ELSE @ \cup {<<e.q, e.d>>}]
    [] e.e = "FStart" ->
         [s EXCEPT !.fin[e.f] = "run",
                   !.bad = @ \cup V(/\ s.fin[e.f] = "no"
                                    /\ ~ \E f \in F(c) : s.fin[f] = "run"
                                    /\ Failing(s) \/ ~ \E x \in s.act : x[1] = e.f, "C20")
                             \cup V(Failing(s) \/ ~ s.ret, "C19")]
    [] e.e = "FEnd" -> [s EXCEPT !.fin[e.f] = "done"]
    [] e.e = "CStart" -> [s EXCEPT !.can = IF @ = 0 THEN 1 ELSE @]
    [] e.e = "CEnd" -> [s EXCEPT !.can = 2, !.bad = @ \cup V(e.ctx, "C21")]
    [] e.e = "SStart" ->
         [s EXCEPT !.errs = @ \cup {e.id}, !.can = IF @ = 0 THEN 1 ELSE @,
                   !.rep = IF 0 \in @ THEN @ \cup {e.id} ELSE @,
                   !.late = IF s.ends # {} THEN @ \cup {e.id} ELSE @]
    [] e.e = "SEnd" ->
         [s EXCEPT !.ends = @ \cup {e.id},
                   !.win = IF e.ok /\ @ = 0 THEN e.id ELSE @,
                   !.can = IF e.ok THEN 2 ELSE @,
                   !.bad = @ \cup V(IF e.ok THEN s.win = 0 /\ e.id \notin s.late /\ e.ctx
                                    ELSE s.errs # {e.id} \/ s.serr, "C21")]
    [] e.e = "SErr" -> [s EXCEPT !.serr = TRUE, !.can = 2]
    \* Err was called: before it, p was the successful attempt (or 0); it returned r
    [] e.e = "Err" ->
         [s EXCEPT !.bad = @ \cup V(IF e.p # 0 THEN e.r = e.p
                                    ELSE \/ e.r = 0
                                         \/ e.r \in s.errs /\ (s.win # 0 => e.r = s.win)
                                         \/ e.r = 99 /\ s.serr /\ s.win = 0, "C21")]
    [] e.e = "Ret" ->
         [s EXCEPT !.ret = TRUE, !.rep = Reports(s), !.bad = @ \cup ReturnBad(c, s, e)]
    \* Err returned r, called after the run
    [] e.e = "RErr" -> [s EXCEPT !.bad = @ \cup V(e.r \in s.rep, "C21")]
    [] e.e = "Quiesce" -> Quiesce(c, s)
    [] e.e = "Hang" -> [s EXCEPT !.bad = @ \cup {"C19"} \cup (IF Undisturbed(s) THEN {} ELSE {"C21"})]
    \* goroutines of the run remain for ever after a run that was cancelled or ended
    [] e.e = "Leak" -> [s EXCEPT !.bad = @ \cup {"C19"}]
    \* accesses of a run that the library must order, but has not
    [] e.e = "Race" -> [s EXCEPT !.bad = @ \cup (IF e.calm THEN {"C16", "C18", "C20"} ELSE {"C21"})]
    [] e.e \in {"Crash", "Panic"} -> [s EXCEPT !.bad = @ \cup {"C16", "C17", "C18", "C19", "C20", "C21", "C28"}]
    [] OTHER -> s
=============================================================================
