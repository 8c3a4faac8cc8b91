----------------------------- MODULE FilterImpl -----------------------------
(* The predefined filters as pipeline.go, seqnode.go, parnode.go and          *)
(* filters.go implement them - bookkeeping of sizes, counters, flags, the     *)
(* order in which batches pass through groups of nodes - checked against      *)
(* FilterAbs for all short chains, divisions and schedules.                   *)
EXTENDS FilterAbs, TLC
CONSTANTS Kinds,      \* of stages
          MaxStages, MaxArg, MaxBatches, MaxPer, Can, Defect
VARIABLES c, mode, seen, val, pos, dat, tmp, turn, done, phase, ab
vars == <<c, mode, seen, val, pos, dat, tmp, turn, done, phase, ab>>

Stages == UNION { { [k |-> k, n |-> n, can |-> can, nk |-> nk] :
                      n \in (IF k \in {"limit", "skip"} THEN 0 .. MaxArg ELSE {0}),
                      can \in (IF k = "limit" \/ k \in PredKinds THEN Can ELSE {FALSE}),
                      nk \in (IF k \in {"limit", "skip"} THEN {"ord"} ELSE {"ord", "par"}) } : k \in Kinds }
Divisions == UNION { [1 .. m -> 1 .. MaxPer] : m \in 0 .. MaxBatches }
RECURSIVE Number(_, _)
Number(d, from) == IF d = << >> THEN << >>
                   ELSE << [i \in 1 .. d[1] |-> from + i] >> \o Number(Tail(d), from + d[1])
RECURSIVE Groups(_, _)
Groups(x, i) == IF i = 1 THEN 1 ELSE Groups(x, i - 1) + (IF x[i].nk = x[i - 1].nk THEN 0 ELSE 1)
Outcomes(x, n) == IF \E i \in 1 .. Len(x) : x[i].k \in PredKinds THEN [1 .. (n + 1) -> BOOLEAN] ELSE {<<TRUE>>}

Case(x, d, kn, o) ==
  [st |-> [i \in 1 .. Len(x) |-> [k |-> x[i].k, n |-> x[i].n, can |-> x[i].can, node |-> i, grp |-> Groups(x, i), init |-> << >>, o |-> o]],
   ordn |-> [i \in 1 .. Len(x) |-> x[i].nk = "ord"],
   bat |-> Number(d, 0), known |-> kn, err |-> FALSE]

RECURSIVE Sum(_)
Sum(b) == IF b = << >> THEN 0 ELSE Len(b[1]) + Sum(Tail(b))
\* Begin: << mode of stage i, size announced to stage i + 1 >>
Begin(x, sz) ==
  CASE x.k = "limit" -> IF x.n < 0 THEN <<"none", sz>>
                        ELSE IF x.n = 0 THEN <<"drop", 0>>
                        ELSE IF sz < 0 \/ sz > x.n THEN <<"limit", IF sz > 0 /\ Defect # "limitSize" THEN x.n ELSE sz>>
                        ELSE <<"none", sz>>
    [] x.k = "skip"  -> IF x.n = 0 THEN <<"none", sz>>
                        ELSE IF sz < 0 \/ sz > x.n THEN <<"skip", IF sz > 0 THEN (IF Defect = "skipSize" THEN x.n ELSE sz - x.n) ELSE sz>>
                        ELSE <<"drop", 0>>
    [] x.k = "count" -> IF sz >= 0 THEN <<"fixed", sz>> ELSE <<"count", sz>>
    [] x.k \in {"odd", "alt"} -> <<"map", -1>>
    [] x.k = "dup"   -> <<"map", IF sz > 0 THEN 2 * sz ELSE sz>>
    [] x.k = "drop"  -> <<"map", 0>>
    [] OTHER -> <<"recv", sz>>
RECURSIVE Begins(_, _, _)
Begins(st, i, sz) == IF i > Len(st) THEN << >>
                     ELSE LET b == Begin(st[i], sz) IN << [m |-> b[1], sz |-> sz] >> \o Begins(st, i + 1, b[2])

Init ==
  /\ \E m \in 1 .. MaxStages : \E x \in [1 .. m -> Stages], d \in Divisions, kn \in BOOLEAN :
       \E o \in Outcomes(x, Len(d)) : c = Case(x, d, kn, o)
  /\ LET b == Begins(c.st, 1, IF c.known THEN Sum(c.bat) ELSE -1) IN
       /\ mode = [i \in 1 .. N(c) |-> b[i].m]
       /\ val = [i \in 1 .. N(c) |-> IF b[i].m = "fixed" THEN b[i].sz
                                     ELSE IF c.st[i].k = "count" THEN 0
                                     ELSE IF c.st[i].k = "slice" THEN << >>
                                     ELSE c.st[i].k \in {"every", "notany"}]
  /\ seen = [i \in 1 .. N(c) |-> 0]
  /\ pos = [q \in 1 .. Len(c.bat) |-> -1]      \* -1: not fetched; i: before stage i + 1, 99: gone
  /\ dat = c.bat
  /\ tmp = [q \in 1 .. Len(c.bat) |-> [pc |-> "go", v |-> 0]]
  /\ turn = [g \in 1 .. N(c) |-> 1]
  /\ done = \E i \in 1 .. N(c) : c.st[i].k = "limit" /\ c.st[i].n = 0 /\ c.st[i].can
  /\ phase = "run"
  /\ ab = Init0(c)

Keep == \E i \in 1 .. N(c) : mode[i] \notin {"none", "fixed"}
Fixed == UNCHANGED <<c, mode>>
Fetch ==
  /\ phase = "run"
  /\ LET M == { q \in 1 .. Len(c.bat) : pos[q] = -1 } IN
       IF done \/ M = {} \/ ~ Keep
       THEN phase' = "end" /\ UNCHANGED <<pos, ab>>
       ELSE /\ pos' = [pos EXCEPT ![CHOOSE q \in M : \A r \in M : q <= r] = 0]
            /\ ab' = Step(c, ab, [e |-> "Fetched"])
            /\ UNCHANGED phase
  /\ Fixed /\ UNCHANGED <<seen, val, dat, tmp, turn, done>>

Ord(i) == c.ordn[c.st[i].node]
\* batch q comes to a group of nodes
Enters(q) == IF pos[q] = 0 THEN TRUE ELSE c.st[pos[q]].grp # c.st[pos[q] + 1].grp
MayGo(q) == LET i == pos[q] + 1 IN (Enters(q) /\ Ord(i)) => turn[c.st[i].grp] = q
Active(q) == pos[q] >= 0 /\ pos[q] < N(c)
Drop(q) == \* a cancelled pipeline loses a batch between nodes
  /\ Active(q) /\ done /\ Enters(q) /\ tmp[q].pc = "go"
  /\ pos' = [pos EXCEPT ![q] = 99]
  /\ Fixed /\ UNCHANGED <<seen, val, dat, tmp, turn, done, phase, ab>>

Leave(q, i, d) == \* batch q has passed stage i with data d
  /\ pos' = [pos EXCEPT ![q] = i]
  /\ dat' = [dat EXCEPT ![q] = d]
  /\ tmp' = [tmp EXCEPT ![q] = [pc |-> "go", v |-> 0]]
  /\ turn' = IF Ord(i) /\ (i = N(c) \/ c.st[i + 1].grp # c.st[i].grp) THEN [turn EXCEPT ![c.st[i].grp] = @ + 1] ELSE turn
Probe(q, i) == ab' = Step(c, ab, [e |-> "In", f |-> i, q |-> q - 1, d |-> dat[q], ctx |-> done])

Stage(q) ==
  /\ Active(q) /\ (tmp[q].pc # "go" \/ MayGo(q))
  /\ LET i == pos[q] + 1
         x == c.st[i]
         d == dat[q]
         l == Len(d)
     IN CASE mode[i] \in {"none", "fixed"} ->
               Leave(q, i, d) /\ UNCHANGED <<seen, val, done, ab>>
          [] mode[i] = "drop" ->
               Leave(q, i, << >>) /\ UNCHANGED <<seen, val, done, ab>>
          [] mode[i] = "map" ->
               Leave(q, i, Apply(x, q - 1, d, 0)) /\ UNCHANGED <<seen, val, done, ab>>
          [] mode[i] = "limit" ->
               LET over == seen[i] + l > x.n
                   s2 == IF seen[i] >= x.n THEN seen[i] ELSE IF over THEN x.n ELSE seen[i] + l
               IN /\ Leave(q, i, IF seen[i] >= x.n THEN << >> ELSE IF over THEN SubSeq(d, 1, x.n - seen[i]) ELSE d)
                  /\ seen' = [seen EXCEPT ![i] = s2]
                  /\ done' = (done \/ (x.can /\ (IF Defect = "earlyCancel" THEN s2 + 1 >= x.n ELSE s2 = x.n)))
                  /\ UNCHANGED <<val, ab>>
          [] mode[i] = "skip" ->
               LET over == seen[i] + l > x.n IN
                  /\ Leave(q, i, IF seen[i] >= x.n THEN d ELSE IF over THEN SubSeq(d, x.n - seen[i] + 1, l) ELSE << >>)
                  /\ seen' = [seen EXCEPT ![i] = IF @ >= x.n THEN @ ELSE IF over THEN x.n ELSE @ + l]
                  /\ UNCHANGED <<val, done, ab>>
          [] mode[i] = "count" ->
               IF Defect = "lostCount" /\ tmp[q].pc = "go"
               THEN /\ tmp' = [tmp EXCEPT ![q] = [pc |-> "add", v |-> val[i]]]
                    /\ UNCHANGED <<pos, dat, turn, seen, val, done, ab>>
               ELSE /\ val' = [val EXCEPT ![i] = (IF tmp[q].pc = "add" THEN tmp[q].v ELSE @) + l]
                    /\ Leave(q, i, d) /\ UNCHANGED <<seen, done, ab>>
          [] x.k = "slice" ->
               /\ val' = [val EXCEPT ![i] = @ \o d]
               /\ Leave(q, i, d) /\ UNCHANGED <<seen, done, ab>>
          [] x.k = "pass" -> Probe(q, i) /\ Leave(q, i, d) /\ UNCHANGED <<seen, val, done>>
          [] OTHER -> \* predicates: invoke, set the flag, cancel
               CASE tmp[q].pc = "go" ->
                      /\ Probe(q, i)
                      /\ IF Decides(c, i, q - 1) THEN tmp' = [tmp EXCEPT ![q].pc = "set"] /\ UNCHANGED <<pos, dat, turn>>
                         ELSE Leave(q, i, d)
                      /\ UNCHANGED <<seen, val, done>>
                 [] tmp[q].pc = "set" ->
                      /\ val' = [val EXCEPT ![i] = c.st[i].k \in {"notevery", "some"}]
                      /\ tmp' = [tmp EXCEPT ![q].pc = "cancel"]
                      /\ UNCHANGED <<pos, dat, turn, seen, done, ab>>
                 [] OTHER ->
                      /\ done' = (done \/ (x.can /\ Defect # "noCancel"))
                      /\ Leave(q, i, d) /\ UNCHANGED <<seen, val, ab>>
  /\ Fixed /\ UNCHANGED phase

RECURSIVE Results(_)
Results(i) == IF i > N(c) THEN << >>
              ELSE (IF c.st[i].k \in {"count", "slice"} \cup PredKinds THEN << [f |-> i, r |-> val[i]] >> ELSE << >>) \o Results(i + 1)
RunEnd ==
  /\ phase = "end"
  /\ Defect = "noWait" \/ \A q \in 1 .. Len(c.bat) : ~ Active(q)
  /\ phase' = "over"
  /\ ab' = Step(c, ab, [e |-> "Ret", ctx |-> done, err |-> FALSE, res |-> Results(1)])
  /\ Fixed /\ UNCHANGED <<seen, val, pos, dat, tmp, turn, done>>

Next == Fetch \/ RunEnd \/ \E q \in 1 .. Len(c.bat) : Stage(q) \/ Drop(q)
Spec == Init /\ [][Next]_vars
Safe == ab.bad = {}
NoHang == phase # "over" => ENABLED Next
=============================================================================
