------------------------------ MODULE SortImpl ------------------------------
(* The sorting algorithms as trees of fork-join tasks with small grain sizes, *)
(* checked against SortAbs: for all inputs, the result is right in all        *)
(* schedules (C08, C09, C10), and uses of elements that overlap in time do    *)
(* not conflict and lie within the call (C11).                                *)
(*                                                                            *)
(* Tasks are named by their paths in the tree. A task without children does   *)
(* one operation at a time (pc "op": in progress); children that exist have   *)
(* to end before their parent goes on.                                        *)
EXTENDS SortAbs, TLC
CONSTANTS Fns, Sizes, Keys,
          QGrain, MGrain, Cutoff,   \* qsortGrainSize, msortGrainSize, serialCutoff
          Defect

VARIABLES fn, n, key, a, tasks, temp, res, ret
vars == <<fn, n, key, a, tasks, temp, res, ret>>

K(arr, i) == key[arr[i + 1] + 1]          \* key of element i of an array of numbers
Less(arr, i, j) == K(arr, i) < K(arr, j)
Swap(arr, i, j) == [arr EXCEPT ![i + 1] = arr[j + 1], ![j + 1] = arr[i + 1]]
SetRange(arr, i, q) == [k \in DOMAIN arr |-> IF k > i /\ k <= i + Len(q) THEN q[k - i] ELSE arr[k]]
\* stable sort of the range i .. j-1
RECURSIVE Insert(_, _)
Insert(q, x) == IF q = << >> THEN <<x>>
                ELSE IF key[x + 1] < key[q[Len(q)] + 1] THEN Append(Insert(SubSeq(q, 1, Len(q) - 1), x), q[Len(q)])
                ELSE Append(q, x)
RECURSIVE SortSeqK(_)
SortSeqK(q) == IF q = << >> THEN q ELSE Insert(SortSeqK(SubSeq(q, 1, Len(q) - 1)), q[Len(q)])
SeqSort(arr, i, j) == SetRange(arr, i, SortSeqK(SubSeq(arr, i + 1, j)))

---- \* quicksort
Median3(arr, l, m, r) ==
  IF Less(arr, l, m) THEN IF Less(arr, m, r) THEN m ELSE IF Less(arr, l, r) THEN r ELSE l
  ELSE IF Less(arr, r, m) THEN m ELSE IF Less(arr, r, l) THEN r ELSE l
Median9(arr, i, size) ==
  LET o == size \div 8 IN
  Median3(arr, Median3(arr, i, i + o, i + 2 * o), Median3(arr, i + 3 * o, i + 4 * o, i + 5 * o),
          Median3(arr, i + 6 * o, i + 7 * o, i + size - 1))
RECURSIVE Down(_, _, _), Up(_, _, _, _), Scan(_, _, _, _)
Down(arr, p, j) == IF Less(arr, p, j - 1) THEN Down(arr, p, j - 1) ELSE j - 1
Up(arr, p, i, j) == IF i = j THEN i ELSE IF Less(arr, i + 1, p) THEN Up(arr, p, i + 1, j) ELSE i + 1
\* returns <<array, j>>
Scan(arr, p, i, j) ==
  LET j2 == Down(arr, p, j)
      i2 == Up(arr, p, i, j2)
  IN IF i2 = j2 THEN <<Swap(arr, j2, p), j2>> ELSE Scan(Swap(arr, i2, j2), p, i2, j2)
Partition(arr, i, size) ==
  LET m == Median9(arr, i, size) IN Scan(IF m > i THEN Swap(arr, i, m) ELSE arr, i, i, i + size)

---- \* merging
RECURSIVE BSearch(_, _, _, _, _)
\* first position in low .. high for which the element is not less than x (eq) or x is less than it
BSearch(arr, x, low, high, eq) ==
  IF low >= high THEN low
  ELSE LET mid == (low + high) \div 2
           go == IF eq THEN ~ Less(arr, mid, x) ELSE Less(arr, x, mid)
       IN IF go THEN BSearch(arr, x, low, mid, eq) ELSE BSearch(arr, x, mid + 1, high, eq)
RECURSIVE MergeSeq(_, _, _, _, _)
MergeSeq(arr, p1, r1, p2, r2) ==
  IF p2 > r2 THEN SubSeq(arr, p1 + 1, r1 + 1)
  ELSE IF p1 > r1 THEN SubSeq(arr, p2 + 1, r2 + 1)
  ELSE IF IF Defect = "ties" THEN Less(arr, p1, p2) ELSE ~ Less(arr, p2, p1)
       THEN <<arr[p1 + 1]>> \o MergeSeq(arr, p1 + 1, r1, p2, r2)
       ELSE <<arr[p2 + 1]>> \o MergeSeq(arr, p1, r1, p2 + 1, r2)

---- \* tasks
T(k, x) == [k |-> k, x |-> x, pc |-> "new"]
Child(p, q) == Len(q) = Len(p) + 1 /\ SubSeq(q, 1, Len(p)) = p
Below(p) == { q \in DOMAIN tasks : Child(p, q) }
Busy(p) == Below(p) # {}
Set(p, pc) == [tasks EXCEPT ![p].pc = pc]
Fork(p, pc, ts) == [q \in DOMAIN tasks \cup { Append(p, k) : k \in 1 .. Len(ts) } |->
                     IF q = p THEN [tasks[p] EXCEPT !.pc = pc]
                     ELSE IF q \in DOMAIN tasks THEN tasks[q] ELSE ts[q[Len(q)]]]
Kill(p) == [q \in DOMAIN tasks \ {p} |-> tasks[q]]

\* the uses of elements of the operation that task t has in progress
Uses(t) ==
  LET x == t.x IN
  IF t.pc # "op" THEN [w |-> {}, r |-> {}]
  ELSE CASE t.k \in {"seq", "part"} -> [w |-> {<<0, x[1], x[1] + x[2]>>}, r |-> {}]
         [] t.k = "is" -> [w |-> {}, r |-> {<<0, IF x[1] = 0 THEN 0 ELSE x[1] - 1, x[1] + x[2]>>}]
         [] t.k = "merge" ->
              [w |-> {<<1 - x[1], x[6], x[6] + (x[3] - x[2] + 1) + (x[5] - x[4] + 1)>>},
               r |-> {<<x[1], x[2], x[3] + 1>>, <<x[1], x[4], x[5] + 1>>}]
         [] OTHER -> [w |-> {}, r |-> {}]

Sorted(arr, i, size) == ~ \E k \in i .. (i + size - 1) : k > 0 /\ Less(arr, k, k - 1)

\* what a new task does first
SortT(i, size) == T(IF size < QGrain THEN "seq" ELSE "part", <<i, size>>)
MSortT(i, size) == IF size < MGrain THEN T("seq", <<i, size>>) ELSE T("msort", <<i, size>>)
IsT(i, size) == T(IF size < QGrain THEN "is" ELSE "isfork", <<i, size>>)
MergeT(src, p1, r1, p2, r2, p3) ==
  T(IF (r1 - p1 + 1) + (r2 - p2 + 1) < MGrain THEN "merge" ELSE "mfork", <<src, p1, r1, p2, r2, p3>>)

Init == /\ fn \in Fns
        /\ n \in Sizes
        /\ key \in [1 .. n -> Keys]
        /\ a = [c \in 0 .. 1 |-> IF c = 0 THEN [i \in 1 .. n |-> i - 1] ELSE [i \in 1 .. n |-> -1]]
        /\ tasks = (<< >> :> T(fn, << >>))
        /\ temp = "no" /\ res = TRUE /\ ret = FALSE

U(v) == UNCHANGED v
Done(p) == tasks' = Kill(p)

Root(p, t) ==
  CASE t.k = "sort" ->
      CASE t.pc = "new" /\ n < QGrain -> tasks' = Fork(p, "end", <<T("seq", <<0, n>>)>>) /\ U(<<a, temp, res, ret>>)
        [] t.pc = "new" /\ n >= QGrain -> tasks' = Fork(p, "tested", <<T("is0", << >>)>>) /\ U(<<a, temp, res, ret>>)
        [] t.pc = "tested" -> /\ tasks' = IF res /\ Defect # "noSkip" THEN Set(p, "end") ELSE Fork(p, "end", <<SortT(0, n)>>)
                              /\ U(<<a, temp, res, ret>>)
        [] OTHER -> ret' = TRUE /\ Done(p) /\ U(<<a, temp, res>>)
    [] t.k = "stable" ->
      CASE t.pc = "new" /\ n < MGrain -> tasks' = Fork(p, "end", <<T("seq", <<0, n>>)>>) /\ U(<<a, temp, res, ret>>)
        [] t.pc = "new" /\ n >= MGrain -> /\ tasks' = Fork(p, "end", <<MSortT(0, n)>>)
                                          /\ temp' = "wait" /\ U(<<a, res, ret>>)
        [] OTHER -> ret' = TRUE /\ Done(p) /\ U(<<a, temp, res>>)
    [] t.k = "is" /\ t.x = << >> ->   \* the root of a call to IsSorted
      CASE t.pc = "new" -> tasks' = Fork(p, "end", <<T("is0", << >>)>>) /\ U(<<a, temp, res, ret>>)
        [] OTHER -> ret' = TRUE /\ Done(p) /\ U(<<a, temp, res>>)

Task(p, t) ==
  LET x == t.x IN
  CASE t.k = "is0" /\ t.pc = "new" ->
         /\ tasks' = Fork(p, "part1", <<T("is", <<0, IF n < QGrain THEN n ELSE Cutoff>>)>>)
         /\ U(<<a, temp, res, ret>>)
    [] t.k = "is0" /\ t.pc = "part1" ->
         /\ IF n < QGrain \/ ~ res THEN Done(p) ELSE tasks' = Fork(p, "end", <<IsT(Cutoff, n - Cutoff)>>)
         /\ U(<<a, temp, res, ret>>)
    [] t.k = "isfork" /\ t.pc = "new" ->
         LET h == x[2] \div 2 IN
         /\ tasks' = Fork(p, "end", <<IsT(x[1], h), IsT(x[1] + h, x[2] - h)>>)
         /\ U(<<a, temp, res, ret>>)
    [] t.k = "msort" /\ t.pc = "new" ->
         LET i == x[1]  s == x[2]  q == s \div 4 IN
         /\ tasks' = Fork(p, "sorted", <<MSortT(i, q), MSortT(i + q, q), MSortT(i + 2 * q, q), MSortT(i + 3 * q, s - 3 * q)>>)
         /\ U(<<a, temp, res, ret>>)
    [] t.k = "msort" /\ t.pc = "sorted" ->
         LET i == x[1]  s == x[2]  q == s \div 4 IN
         /\ temp = "ready"
         /\ tasks' = Fork(p, IF Defect = "noJoin" THEN "early" ELSE "merged",
                          <<MergeT(0, i, i + q - 1, i + q, i + 2 * q - 1, i),
                            MergeT(0, i + 2 * q, i + 3 * q - 1, i + 3 * q, i + s - 1, i + 2 * q)>>)
         /\ U(<<a, temp, res, ret>>)
    [] t.k = "msort" /\ t.pc \in {"merged", "early"} ->
         LET i == x[1]  s == x[2]  q == s \div 4
             m == MergeT(1, i, i + 2 * q - 1, i + 2 * q, i + s - 1, i)
         IN /\ tasks' = [r \in DOMAIN tasks \cup {Append(p, 3)} |->
                          IF r = p THEN [t EXCEPT !.pc = "end"] ELSE IF r = Append(p, 3) THEN m ELSE tasks[r]]
            /\ U(<<a, temp, res, ret>>)
    [] t.k = "mfork" /\ t.pc = "new" ->
         LET src == x[1]  p1 == x[2]  r1 == x[3]  p2 == x[4]  r2 == x[5]  p3 == x[6]
             n1 == r1 - p1 + 1
             n2 == r2 - p2 + 1
             arr == a[src]
             eq == IF Defect = "search" THEN FALSE ELSE TRUE
         IN /\ IF n1 > n2
               THEN LET q1 == (p1 + r1) \div 2
                        q2 == BSearch(arr, q1, p2, r2 + 1, eq)
                        q3 == p3 + (q1 - p1) + (q2 - p2)
                    IN /\ tasks' = Fork(p, "end", <<MergeT(src, p1, q1 - 1, p2, q2 - 1, p3), MergeT(src, q1 + 1, r1, q2, r2, q3 + 1)>>)
                       /\ a' = [a EXCEPT ![1 - src] = SetRange(@, q3, <<arr[q1 + 1]>>)]
               ELSE LET q2 == (p2 + r2) \div 2
                        q1 == BSearch(arr, q2, p1, r1 + 1, FALSE)
                        q3 == p3 + (q1 - p1) + (q2 - p2)
                    IN /\ tasks' = Fork(p, "end", <<MergeT(src, p1, q1 - 1, p2, q2 - 1, p3), MergeT(src, q1, r1, q2 + 1, r2, q3 + 1)>>)
                       /\ a' = [a EXCEPT ![1 - src] = SetRange(@, q3, <<arr[q2 + 1]>>)]
            /\ U(<<temp, res, ret>>)
    [] t.k \in {"seq", "part", "is", "merge"} /\ t.pc = "new" -> tasks' = Set(p, "op") /\ U(<<a, temp, res, ret>>)
    [] t.k = "seq" /\ t.pc = "op" ->
         Done(p) /\ a' = [a EXCEPT ![0] = SeqSort(@, x[1], x[1] + x[2])] /\ U(<<temp, res, ret>>)
    [] t.k = "is" /\ t.pc = "op" ->
         /\ Done(p)
         /\ res' = (res /\ IF Defect = "border" THEN ~ \E i \in (x[1] + 1) .. (x[1] + x[2] - 1) : Less(a[0], i, i - 1)
                           ELSE Sorted(a[0], x[1], x[2]))
         /\ U(<<a, temp, ret>>)
    [] t.k = "merge" /\ t.pc = "op" ->
         /\ Done(p)
         /\ a' = [a EXCEPT ![1 - x[1]] = SetRange(@, x[6], MergeSeq(a[x[1]], x[2], x[3], x[4], x[5]))]
         /\ U(<<temp, res, ret>>)
    [] t.k = "part" /\ t.pc = "op" ->
         LET r == Partition(a[0], x[1], x[2])
             j == r[2]
         IN /\ a' = [a EXCEPT ![0] = r[1]]
            /\ tasks' = Fork(p, "end", <<SortT(x[1], IF Defect = "overlap" THEN j - x[1] + 1 ELSE j - x[1]),
                                         SortT(j + 1, x[1] + x[2] - (j + 1))>>)
            /\ U(<<temp, res, ret>>)
    [] t.pc = "end" -> Done(p) /\ U(<<a, temp, res, ret>>)
    [] OTHER -> FALSE

Run == \E p \in DOMAIN tasks :
         LET t == tasks[p] IN
         /\ Busy(p) => t.pc = "early"
         /\ IF p = << >> THEN Root(p, t) ELSE Task(p, t)
         /\ UNCHANGED <<fn, n, key>>
NewTemp == temp = "wait" /\ temp' = "ready" /\ UNCHANGED <<fn, n, key, a, tasks, res, ret>>
Next == Run \/ NewTemp
Spec == Init /\ [][Next]_vars

---- \* properties
Isolated == \A p, q \in DOMAIN tasks : p # q =>
              LET x == Uses(tasks[p])  y == Uses(tasks[q]) IN ~ Meet(x.w, y.w \cup y.r)
Right == ret => /\ tasks = << >> /\ temp # "wait"
                /\ LET c == [fn |-> fn, n |-> n, key |-> key]
                       d == IF Sorted(a[0], 0, n) THEN << >> ELSE <<1>>
                   IN ReturnBad(c, [w |-> a[0], d |-> d, r |-> res]) = {}
Progress == (~ ENABLED Next) => ret
=============================================================================
