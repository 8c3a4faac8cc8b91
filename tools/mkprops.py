#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the texts stay reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=hook)))

PAR, SPEC, SEQ = "parallel/parallel.go", "speculative/speculative.go", "sequential/sequential.go"
MAP, INT = "sync/map.go", "internal/internal.go"
SORT = ["sort/sort.go", "sort/quicksort.go", "sort/mergesort.go"]
PIPE = ["pipeline/pipeline.go", "pipeline/seqnode.go", "pipeline/parnode.go", "pipeline/lparnode.go", "pipeline/strictordnode.go"]
FJ_WHY = ("The tests run a handful of fixed programs on whatever schedule the runtime picks; none controls which function "
          "finishes, stops or panics first, and only 4 of the ~80 functions of this family are called at all.")

prop("C01", "Fork-join calls run every function exactly once and join all of them",
 "A call to any task or range function of the parallel package (Do, And, Or, the Reduce and the Range families) invokes each function or batch it was given exactly once. It gives control back to its caller, whether by returning or by panicking, only after every one of these invocations has terminated.",
 ["schedules", "inputs"], "all numbers of functions or batches, all completion orders, all subsets of panicking invocations", FJ_WHY,
 [PAR], [("recursive halving: right half in a goroutine, left half in the caller, joined by a wait group", PAR)],
 ["start and end of each user function", "return or panic of the call"])
prop("C02", "Reductions combine every result exactly once, in argument or range order",
 "If nothing panics and nothing asks to stop early, every reduction (Reduce and RangeReduce families, And, Or, and the Sum and Product forms) of the parallel, speculative and sequential packages yields the left-to-right combination of the individual results, each used exactly once and in argument or range order, whatever the timing, for every associative join. With no functions at all the Sum, Product, And, Or forms yield their identity element.",
 ["schedules", "inputs"], "all numbers of functions or batches, all result values, all completion orders, all associative (also non-commutative) joins",
 "Existing examples use commutative or tiny reductions on one schedule; most typed variants are never called.",
 [PAR, SPEC, SEQ], [("left/right partial results joined after both halves are done", PAR + ", " + SPEC)],
 ["result of the call", "arguments of each join invocation"])
prop("C03", "Functions of one parallel call never wait for each other to finish",
 "All functions or batches handed to one call of a parallel or speculative task or range function can be in progress at the same time: every one of them gets started even if none of the others ever finishes, so functions of one call may communicate with each other.",
 ["schedules", "inputs"], "all numbers of functions or batches, all points at which functions block",
 "No test has functions that depend on each other; a call that serialises its functions passes every existing test.",
 [PAR, SPEC], [("one goroutine per right half, the left half in the calling goroutine", PAR + ", " + SPEC)],
 ["start of each user function while all others are held"])
prop("C04", "Range batches partition the range, in all three packages alike",
 "For low <= high and n >= 0, the batches on which a range function of the parallel, speculative or sequential package invokes its argument are contiguous, non-overlapping, and together exactly [low, high); none is empty unless low == high, in which case there is exactly one invocation, on the empty range; there are at most n of them if n > 0, at least half as many as the smaller of n and high-low, and the three packages use the same batches. With high < low or n < 0 the call panics and invokes nothing.",
 ["inputs", "configurations"], "all low, high, n (with high-low representable) and all GOMAXPROCS settings for n = 0",
 "Tests use three (low, high, n) triples; uneven divisions, n > size, empty ranges and n < 0 are never tried.",
 [INT, PAR, SPEC, SEQ], [("ComputeNofBatches", INT), ("recursive split by batch size", PAR + ", " + SPEC + ", " + SEQ)],
 ["arguments of each invocation of the range function", "panic of the call"])
prop("C05", "The left-most panic of a parallel call reaches the caller",
 "If functions, batches or joins invoked by a call to a parallel or speculative task or range function panic, and no stopping result of a speculative call lies further left, the call panics, and its panic value stems from the left-most panicking one in argument or range order, whatever the timing. The value contains the text of the original panic value, is an error if the original was an error, and is a runtime.Error if the original was one.",
 ["schedules", "fault_sequences", "inputs"], "all sets of panicking functions, batches and joins, all kinds of panic values, all completion orders",
 "No existing test lets anything panic.",
 [PAR, SPEC, INT], [("recover in each goroutine, re-panic after the join", PAR + ", " + SPEC), ("WrapPanic", INT)],
 ["recovered panic value of the call"])
prop("C06", "A speculative call's outcome is that of its left-most decisive function",
 "The outcome of a call to a speculative task or range function depends only on what its functions and joins produce and not on timing: the left-most of them (in argument or range order) that either panics or yields a decisive value (false for And, true for Or, Do and Range, a true flag for the reductions) determines the result, including the value returned along with the flag. If there is none, the result is the non-decisive one (true, false, or the complete reduction with a false flag).",
 ["schedules", "inputs", "fault_sequences"], "all vectors of outcomes (continue, stop, panic) of functions and joins, all completion orders",
 "The speculative package has no tests at all.",
 [SPEC], [("left result examined before the right one is waited for", SPEC)], ["result, flag or panic of the call"])
prop("C07", "A speculative call does not wait for functions right of the decisive one",
 "Once some function of a speculative task or range call has stopped it decisively and everything to its left has terminated, the call returns even if functions to its right never terminate. If no function is decisive and none panics, the call returns only after all of them have terminated.",
 ["schedules", "inputs"], "all positions of the decisive function, all completion orders, functions that never terminate",
 "The speculative package has no tests at all; early return is invisible to any test that lets every function terminate.",
 [SPEC], [("return before wg.Wait when the left half is decisive", SPEC)], ["return of the call relative to running functions"])
prop("C08", "Sort and StableSort produce the sorted permutation of any input",
 "After Sort or StableSort returns, the collection holds exactly the elements it held before, in increasing order, for every length and content (also duplicates, presorted, reversed or adversarial data, and NaN, which sorts before all other float64 values), both for the predefined slice types and for user-defined collections.",
 ["inputs", "schedules"], "all lengths around and above the parallel thresholds, all contents, all schedules of the parallel phases",
 "The tests sort one uniformly random sequence per element type.",
 SORT, [("parallel quicksort partition", SORT[1]), ("parallel merge with binary search splitting", SORT[2])], ["collection before and after the call"])
prop("C09", "StableSort keeps equal elements in their original order",
 "If the collection's sequential sort is stable, StableSort leaves elements that compare equal in their original relative order, for every length, every distribution of equal keys, and every schedule.",
 ["inputs", "schedules"], "all lengths above the parallel threshold, all distributions of duplicates across the merge boundaries",
 "One random input with about two elements per key; long runs of equal keys across merge splits are never tried.",
 [SORT[2], SORT[0]], [("binarySearchEq / binarySearchNeq asymmetry, left-first sequential merge", SORT[2])], ["collection before and after the call"])
prop("C10", "IsSorted and its variants answer exactly whether data is sorted",
 "IsSorted, IntsAreSorted, Float64sAreSorted and StringsAreSorted return true if and only if no element is less than its predecessor, for every length, every position of an inversion and every schedule.",
 ["inputs", "schedules"], "all lengths around the parallel threshold, all positions of one or several inversions",
 "The tests only call these functions on data that is sorted.",
 [SORT[0]], [("recursive halving into speculative/parallel conjunction, each part also checking its left neighbour", SORT[0])], ["result of the call"])
prop("C11", "Sorting uses its collection exclusively and only during the call",
 "Sort, StableSort and IsSorted invoke methods of the collection they were given, and of temporary collections created from it, only between the start and the end of the call. Invocations that overlap in time never conflict: no element is written (by swap, range sort or range assignment) while another invocation reads or writes that element, so neither a user's collection nor a user's next step can race with the sort.",
 ["schedules", "inputs"], "all schedules of the parallel phases, all inputs",
 "A late or overlapping access has no effect on the result in nearly every run; the tests only look at results.",
 SORT, [("fork-join structure over disjoint index ranges", SORT[1] + ", " + SORT[2]), ("early termination of IsSorted", SORT[0])],
 ["begin and end of every Less/Swap/SequentialSort/Assign invocation", "start and end of the call"])
prop("C12", "Operations on one map key are linearizable",
 "Concurrent Load, LoadOrStore, LoadOrCompute, Delete, DeleteOrStore, DeleteOrCompute and Modify calls on a parallel map behave as if each took effect atomically at one instant between its call and its return, on an ordinary map from keys to values, whatever the number of splits and the hash values of the keys (also nil values and colliding hashes). Operations are free of data races and always terminate if the user functions they call do.",
 ["schedules", "histories", "inputs"], "all concurrent histories of these operations over any keys, values and numbers of splits",
 "The sync package has no tests; the one example that uses it only calls Modify, Load and Range.",
 [MAP], [("per-split RWMutex; check again under the write lock after the read-locked lookup", MAP)],
 ["call and return of each operation"], [("splits[i].Map", "contents of a split", MAP)])
prop("C13", "Map operations call their user function with the promised protocol",
 "LoadOrCompute and DeleteOrCompute invoke their computer at most once, never when they report loaded or deleted straight away from an existing entry, and always when a computed value is stored; Modify invokes its modifier exactly once with the current entry and applies precisely its answer; computer in LoadOrCompute runs while no lock of the map is held, and those of DeleteOrCompute and Modify run in isolation from every other operation on the same key, without delaying operations on keys of other splits. A user function that panics leaves the map unchanged, unlocked and usable.",
 ["schedules", "inputs", "fault_sequences"], "all states of the entry, all concurrent operations while the user function runs, panicking user functions",
 "Only Modify is called by an existing test, sequentially.",
 [MAP], [("computer called between read lock and write lock, or under the write lock", MAP)],
 ["start and end of each computer/modifier invocation", "state of the split's lock meanwhile"])
prop("C14", "Map iteration visits each present entry exactly once",
 "Range, ParallelRange and SpeculativeRange visit no key more than once and, unless stopped by the user function, visit every key that is present throughout the call; each visited value is the key's value at that time. From the first to the last invocation of the function for entries of one portion of the map no map operation changes an entry of that portion, while operations on other portions can proceed; ParallelRange and SpeculativeRange work on several portions at the same time. Range makes no further invocation after one returned false, SpeculativeRange then returns without waiting for the others, and in all other cases the calls return only after all entries have been visited. If the function panics, the call panics (SpeculativeRange possibly not, if it is also stopped), and the map remains usable.",
 ["schedules", "histories", "inputs"], "all contents, numbers of splits, stopping points and concurrent modifications",
 "One sequential use of Range in an example; the parallel and speculative iterations are never called.",
 [MAP, PAR, SPEC], [("split lock held while iterating a split", MAP), ("parallel.Range / speculative.Range over splits", MAP)],
 ["invocations of the user function", "return of the iteration", "concurrent operations"])
prop("C15", "Map-wide predicates and reductions cover each split once, in isolation",
 "The And, Or and Reduce families of a parallel map (sequential, parallel and speculative forms, all result types) invoke their function on every split at most once and, unless a deciding result makes it unnecessary, exactly once, while no other operation can access that split, and release the split even if the function panics. The result is that of combining the per-split results in split order (for every associative join), a left-most panic reaches the caller of the parallel and speculative forms, the parallel forms end only after all their invocations ended, and the speculative ones need not wait for splits right of the deciding one. The parallel and speculative forms work on several splits at the same time.",
 ["schedules", "inputs", "fault_sequences"], "all numbers of splits, per-split outcomes (value, stop, panic) and completion orders",
 "None of these 29 methods is called by any test.",
 [MAP, PAR, SPEC], [("per-split predicate/reduce under lock; recursive halving over splits", MAP)],
 ["invocations of the user function and of join", "lock state of splits", "result of the call"])
prop("C16", "Pipelines deliver every batch to every filter exactly once, in chain order",
 "In a pipeline run that is neither cancelled nor fails, every batch fetched from the source is received exactly once by every receiver of every node, and each receiver gets as input precisely what the preceding receiver returned for the batch of the same sequence number (the source's batch for the first one). This holds for every sequence of ordered, strictly ordered, sequential, limited parallel and parallel nodes, wherever nodes or filters without receivers or finalizers occur among them.",
 ["schedules", "programs", "inputs"], "all node sequences (including mergeable neighbours and nodes that vanish), all numbers of batches, all schedules",
 "One example with a two-node pipeline and a single batch.",
 PIPE + ["pipeline/filter.go", "pipeline/filters.go"], [("FeedForward by node index", PIPE[0]), ("TryMerge/Begin dropping nodes", PIPE[0])],
 ["every receiver invocation with its sequence number, input and output"],
 [("nodes", "effective node list after merging", PIPE[0])])
prop("C17", "Ordered nodes receive batches in encounter order without gaps",
 "The filters of an ordered or strictly ordered node are told that their node is ordered. Every receiver in such a node (and every other receiver told that it is in an ordered node) is invoked with the sequence numbers 0, 1, 2, ... in exactly this order, whatever nodes precede it and whatever the schedule. If the pipeline is cancelled or fails, it has received a prefix of that sequence.",
 ["schedules", "programs", "fault_sequences"], "all preceding nodes, all completion orders of parallel nodes, all cancellation points",
 "The only ordered node under test sits behind one batch.",
 PIPE, [("stash of early batches in ordered nodes", PIPE[1]), ("run counter and condition variable in strictly ordered nodes", PIPE[4])],
 ["receiver invocations of ordered nodes"])
prop("C18", "Nodes process batches with exactly the concurrency they promise",
 "A sequential, ordered or strictly ordered node never has two batches in progress at once, and a limited parallel node never more than its limit; a receiver told it is in a sequential or ordered node is never invoked concurrently with itself. A parallel node lets every batch that arrives proceed immediately, and a limited parallel node (not followed by a strictly ordered one) does so unless its limit is in use.",
 ["schedules", "programs", "configurations"], "all node sequences, limits, numbers of batches and schedules",
 "No test observes overlap of receivers.",
 PIPE, [("one goroutine per sequential node, limit goroutines per limited node, one goroutine per batch otherwise", ", ".join(PIPE[1:4]))],
 ["overlap of receiver invocations", "receivers started while others are held"])
prop("C19", "A pipeline run always terminates, after all its work is done",
 "If source and filters terminate, every run of a pipeline terminates, with or without cancellation or errors, for every sequence of nodes and every schedule: no combination of nodes deadlocks. A run that is not ended by an error returns only after every receiver invocation has returned and every finalizer has been called. Once a run is over and its context is done, none of its goroutines remains blocked.",
 ["schedules", "programs", "fault_sequences"], "all node sequences, numbers of batches, schedules and cancellation points",
 "A deadlock needs several batches overtaking each other or a cancellation at a precise moment; the example has one batch.",
 PIPE, [("select on context and channel", PIPE[1] + ", " + PIPE[3]), ("condition variable with broadcast on cancellation", PIPE[4] + ", " + PIPE[3]), ("wait groups in End", PIPE[0])],
 ["return of Run", "outstanding receivers at return"])
prop("C20", "Finalizers run exactly once, after all receiver work of their node",
 "In a pipeline run that is not ended by an error, each finalizer is called exactly once, by the time the run returns, after the corresponding receiver has been invoked for all the batches it will ever get; finalizers never overlap each other. In a run ended by an error a finalizer is called at most once.",
 ["schedules", "programs", "fault_sequences"], "all node sequences, merged or vanishing nodes, schedules, cancellation and error points",
 "One finalizer in one example.",
 PIPE, [("End: close channel, wait for goroutines, call finalizers", ", ".join(PIPE[1:]))], ["finalizer invocations relative to receiver invocations and return"])
prop("C21", "Errors and cancellation stop a pipeline, once, without corrupting it",
 "Of all attempts to set an error in a run exactly the first succeeds, its error is what the pipeline reports from then on, and it cancels the pipeline; an error of the source is reported after the run. After a cancellation, error, or end of the caller's context, the pipeline fetches at most one more batch, so it ends even if the source is endless, and no receiver gets a batch twice or a batch that skipped a preceding receiver.",
 ["schedules", "fault_sequences", "programs"], "all points (filter, batch, external) and all combinations of cancelling or failing, all node sequences",
 "Cancellation and errors never occur in the tests.",
 PIPE + ["pipeline/source.go"], [("SetErr under mutex, then cancel", PIPE[0]), ("checks in the fetch loop", PIPE[0])],
 ["results of SetErr and Err", "fetches after cancellation", "receiver invocations after cancellation"])
prop("C22", "Sources deliver their whole data in order, in batches of the configured size",
 "For arrays, slices, strings, channels, single-element channels, scanners, byte scanners and function sources, the batches a pipeline passes on are, concatenated in sequence order, exactly the source's data (without loss, duplication, or later mutation of delivered data), and no batch is empty. With a known total size s and n batches requested, no batch is larger than s divided by n rounded up, and arrays, slices and strings are divided into at most n batches; with unknown size, batch k requests k times the increment (k = 1, 2, ...), but never more than the maximum, and all batches of scanners and channels but the last have the requested size (single-element channels pass on single elements instead of batches). After a fetch that yielded nothing, the source is not asked again.",
 ["inputs", "configurations"], "all source kinds, lengths, batch settings, and production patterns of channels and readers",
 "One scanner source whose data fits into its first batch.",
 ["pipeline/source.go", "pipeline/pipeline.go"], [("Fetch/Data of each source", "pipeline/source.go"), ("batch size computation", "pipeline/pipeline.go")],
 ["batches received by the first receiver", "sizes passed to Fetch"])
prop("C23", "Limit, Skip, Count and Slice compute what their names say, in any combination",
 "In a run that is not cancelled, whatever chain of Limit, Skip, Count, Slice and pass-through filters and nodes follows the source, every Limit passes on exactly the first so many elements, and every Skip all but the first so many elements, of what reaches it in encounter order; every Count reports the number, and every Slice appends all, of the elements that pass its place, in encounter order if its node is ordered and batch-wise contiguous otherwise. This holds for known and unknown source sizes and for every division into batches; a negative Skip or a result that is not a settable slice sets an error instead of crashing. The total sizes announced to filters are never wrong. A Limit asked to cancel cancels only when it is reached, and everything up to the limit still goes through all filters before it and in its own (merged) node.",
 ["inputs", "programs", "schedules", "configurations"], "all chains of these filters, source lengths, batch divisions, known or unknown sizes, node kinds and schedules",
 "None of these filters is used in any test.",
 ["pipeline/filters.go", "pipeline/filter.go"], [("size bookkeeping through dataSize", "pipeline/filters.go"), ("seen counters in ordered receivers", "pipeline/filters.go")],
 ["values of results after the run", "dataSize seen by later filters", "data seen by later receivers"])
prop("C24", "Every, NotEvery, Some and NotAny report the quantified predicate, in any node",
 "After a run that is not ended by an error, Every, NotEvery, Some and NotAny hold the truth value of their quantifier over the batches their predicate was invoked on; in a run that is not cancelled these are all the batches of the pipeline. With cancellation requested, the pipeline is cancelled as soon as one invocation decides the result (and not otherwise), and the result is the decided value. This holds in every kind of node, for every schedule.",
 ["inputs", "schedules", "programs"], "all vectors of predicate outcomes, node kinds, schedules, with and without early cancellation",
 "None of these filters is used in any test.",
 ["pipeline/filters.go"], [("atomic flag plus finalizer in parallel nodes, direct write otherwise", "pipeline/filters.go")],
 ["result variables after the run", "context state after each predicate invocation"])

prop("C25", "Fork-join calls and sorts come to an end and leave no goroutines behind",
 "As soon as all functions, batches, joins or methods that it has invoked have terminated, a call to a function of the parallel or speculative package, to a predicate, reduction or iteration of a map, or to Sort, StableSort or IsSorted comes to its end (it returns or panics), and from then on none of the goroutines that it started remains, also if it returned early or panicked. No call deadlocks or runs forever, also when calls are nested, or made at the same time by any number of goroutines.",
 ["schedules", "inputs", "fault_sequences"], "all numbers and outcomes (results, early stops, panics) of functions, batches and joins, all nestings of calls, all completion orders",
 "A goroutine that stays blocked is invisible to tests that only look at results, and only arises for particular outcomes and completion orders.",
 [PAR, SPEC, MAP] + SORT, [("wait group and deferred Done in the goroutine of each right half", PAR + ", " + SPEC + ", " + MAP)],
 ["return or panic of the call", "goroutines that exist before and after the call"])

prop("C26", "The sequential package runs everything in order on the caller's goroutine",
 "Every function of the sequential package invokes the functions or batches it was given from left to right and its joins, one at a time, never two at once, all of them on the goroutine of its caller and none before the call or after it. It invokes every function or batch exactly once, except that And, Or, RangeAnd and RangeOr may leave out those to the right of one that already decides the result. As soon as one of them panics nothing further is invoked, and the panic reaches the caller at once, with exactly the value it was raised with.",
 ["inputs", "programs", "fault_sequences"], "all functions of the package, numbers of functions or batches, results, and subsets of panicking functions and joins; also calls nested in each other or made concurrently",
 "The tests call a few of these functions, with functions whose order, goroutine and panics are not observed.",
 [SEQ], [("loops over the arguments, recursive halving of ranges", SEQ)],
 ["start and end of each user function and join with its goroutine", "panic value at the caller"])
prop("C27", "A split locked by its user, or by the map itself, is accessed by nobody else",
 "Split returns the same split for a key throughout the life of a map, and for all keys with equal hash values; a map made by NewMap(size) consists of exactly size splits (GOMAXPROCS(0) if size <= 0), and the enclosed map of a split holds exactly the entries of its keys. While a user holds the lock of a split, no operation, iteration, predicate or reduction of the map reads or changes its entries, and while a user holds its read lock none of them changes them. The map itself holds the lock exclusively while it invokes user functions in iterations, predicates, reductions, Modify and DeleteOrCompute: they never run while another one runs for that split or its lock is held, and no other operation takes effect on its keys meanwhile. Keys of other splits are never delayed by this. What the user stores, replaces or deletes in the enclosed map of a split it has locked takes effect as an operation on the map.",
 ["schedules", "inputs", "histories"], "all interleavings of users that lock splits, map operations, iterations and map-wide calls; all split counts and hash values",
 "Split and the Map field are used by no test together with other operations of the map.",
 [MAP], [("Split with embedded RWMutex and exported Map", MAP), ("split locks of all methods", MAP)],
 ["entries of a locked split before and after", "completion of operations while a lock is held", "number of splits seen by map-wide calls"])

prop("C28", "Filters, nodes and sources of users are driven by their protocols",
 "In a run of a pipeline that has no error yet, the source is prepared exactly once, with the context of the run, before everything else. Then every node is begun and every filter called exactly once, in chain order, with the pipeline they belong to, all before the first batch is fetched; a filter is told the kind that its node has in this run (receivers of filters that are told Ordered or Sequential are invoked accordingly, those of Par are told Parallel) and the total size that the filter before it left (the first one: that of the source). Fetches of the source never overlap, and the data of a fetched batch is taken before the next fetch. A Node implementation of the user is fed every batch exactly once after its Begin returned true, with the sequence number of the batch, and its End is called exactly once, after all these Feed calls have returned (in runs ended by an error: at most once); if its Begin returned false it is never fed or ended.",
 ["programs", "schedules", "fault_sequences"], "all sequences of library and user nodes with any filters, all schedules, cancellation and error points",
 "No test implements the Node or Source interface, or looks at the arguments of a filter.",
 PIPE, [("RunWithContext: Prepare, Begin of all nodes, fetch loop, End", PIPE[0]), ("ComposeFilters", "pipeline/filter.go")],
 ["calls and arguments of Prepare, Fetch, Data, filters, Begin, Feed and End"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
