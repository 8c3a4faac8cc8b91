#!/usr/bin/env python3
"""Writes /verif/known-findings.txt. Run by hand when a finding is added."""
import subprocess,os
ids = { # commit subject -> (properties, what failed)
"fix: parallel functions wait for all goroutines also when the left half panics":("C01","parallel.Do/And/Or/Reduce*/Range* (24 sites): a panic in the left half reached the caller while functions of the right half were still running"),
"fix: Map.ParallelReduce* wait for all goroutines also when the left half panics":("C15","Map.ParallelReduce* (9 sites): same as above for reductions over splits"),
"fix: Map.SpeculativeRange stops when f returns false, not when it returns true":("C14","Map.SpeculativeRange inverted the result for speculative.Range: it returned after the first batch of splits while f always returned true"),
"fix: Map.DeleteOrCompute and Map.Modify release the lock when the user function panics":("C13","a panic of computer or modifier left the split locked for ever"),
"fix: range functions panic for a negative number of batches also on empty ranges":("C04","Range(5, 5, -1, f) invoked f instead of panicking as documented"),
"fix: pipeline.Skip reports the remaining size, not the number of skipped elements":("C23","Skip(n) with a known size s told later filters the size n instead of s-n (Count after Skip was wrong)"),
"fix: pipeline.Limit and Skip accept batches that a preceding filter emptied":("C23","Skip followed by Limit (or Limit by Skip) panicked: reflect.Value.Len on the zero Value"),
"fix: pipeline.Slice sets an error for any result that is not a settable slice":("C23","Slice(&notASlice) crashed in the receiver instead of setting the pipeline error (&& instead of ||)"),
"fix: pipeline.Count starts from zero in sequential and ordered nodes":("C23","Count with unknown size added to the previous contents of its result in sequential and ordered nodes"),
"fix: pipeline nodes forward batches with the index they were fed, also after nodes have merged":("C16","Par, identity node, Par, Seq..: nodes merge after Begin, later nodes kept their old index and forwarded past their successor"),
"fix: pipeline nodes before a strictly ordered node are made ordered before they start":("C19","Par, Seq, StrictOrd deadlocked: the Seq node had started as unordered before it was marked as ordered (for LimitedPar nodes: a data race)"),
"fix: ordered pipeline nodes do not lose the wakeup on cancellation":("C19","StrictOrd and ordered LimitedPar broadcast on cancellation without the lock: a Feed between its context check and its Wait slept for ever"),
"fix: arrays can be used as pipeline sources":("C22","Pipeline.Source([3]int{1,2,3}) panicked: slice of unaddressable array"),
"fix: the first variable batch of a pipeline respects the maximum batch size":("C22","SetVariableBatchSize(10, 3): first batch had size 10"),
"fix: a cancelled pipeline stops fetching from its source":("C21","an endless source was fetched for ever after Cancel (e.g. by Limit(n, true)), Run never returned"),
"fix: Float64Slice.Less orders NaN values as SequentialSort does":("C08","slices with NaN above the parallel threshold were not sorted (Less inconsistent with SequentialSort)"),
"fix: range functions do not split ranges that end near the maximum int at an overflowed index":("C04","for ranges ending near MaxInt the split index low+batchSize*half overflowed: batches outside of the range (par.Range(MaxInt-179, MaxInt, 132))"),
"fix: the end of a pipeline run does not overwrite an error that is set at the same time":("C21","SetErr returned true between the check and the assignment at the end of RunWithContext, and its error was replaced by the source's (nil)"),
"fix: variable batch sizes do not overflow for large increments":("C22","SetVariableBatchSize(math.MaxInt, m): the second batch size overflowed to a negative number, sources were asked for a negative number of elements and the data was cut off"),
"fix: runs of pipelines do not race with errors that are set concurrently":("C21","RunWithContext read the error without the lock when it starts and after Begin: a data race with SetErr, which is documented as safe to be concurrently invoked (e.g. by a goroutine that Prepare or a filter started)"),
"fix: IsSorted does not use the collection after it returned":("C11","IsSorted returned while its goroutines still called Less; Sort then swapped elements concurrently (data race)"),
}
log=subprocess.check_output(["git","-C","/repo","log","--reverse","--format=%h %s"],text=True).splitlines()
out=["# Genuine defects of exascience/pargo found by this work. 'fixed:' entries suppress nothing.",
     "# Unfixed findings would be lines 'KNOWN-FINDING: property=<id> key=<case key> <what fails>'; there are none."]
for l in log:
    h,s=l.split(" ",1)
    if s.startswith("fix:"):
        p,w=ids[s]; out.append(f"fixed: property={p} {h} {w}")
open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","known-findings.txt"),"w").write("\n".join(out)+"\n")
