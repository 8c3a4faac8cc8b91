package main

import (
	"encoding/json"
	"math/rand"
	"runtime"
	"slices"
	"time"

	"github.com/exascience/pargo/pipeline"
	"pargoverif/vsched"
)

// Sources with very much data, in pipelines that run freely. One event
// summarizes the batches.
func runSrcBig(c *sdesc, rng *rand.Rand, procs int) {
	if R.nobig {
		return
	}
	data := make([]int, c.N)
	want := make([]int, c.N)
	typed := c.Kind == "slice" || c.Kind == "array" || c.Kind == "chan" || c.Kind == "single"
	for i := range data {
		data[i] = i + 1
		if typed && i%5 == 3 {
			data[i] = 0
		}
		if want[i] = data[i]; c.Kind == "string" || typed && c.Elem == 2 {
			want[i] %= 256
		}
	}
	known := c.Kind == "slice" || c.Kind == "array" || c.Kind == "string" || c.Kind == "func" && c.Known
	cfg := E{"data": []int{}, "n": c.N, "known": known, "nb": c.NB, "inc": c.Inc, "max": c.Max,
		"exact": c.Kind != "single" && !(c.Kind == "func" && c.Split == 1), "single": c.Kind == "single"}
	desc, _ := json.Marshal(c)
	R.Cur(string(desc), cfg)
	vsched.WaitQuiet()
	vsched.Begin(false, nil)
	vsched.Open()
	p := &pipeline.Pipeline{}
	p.Source(c.source(rng, data))
	if c.NB > 0 {
		p.NofBatches(c.NB)
	}
	if c.Inc > 0 || c.Max > 0 {
		p.SetVariableBatchSize(c.Inc, c.Max)
	}
	type kept struct {
		q    int
		nums []int
		data interface{}
	}
	var keep []kept
	rec := pipeline.Receive(func(q int, data interface{}) interface{} {
		k := kept{q, numsOf(c.Kind, data), data}
		keepMu.Lock()
		keep = append(keep, k)
		keepMu.Unlock()
		return data
	})
	p.Add(map[string]pipeline.Node{"ord": pipeline.Ord(rec), "seq": pipeline.Seq(rec), "par": pipeline.Par(rec),
		"lpar": pipeline.LimitedPar(3, rec), "strict": pipeline.StrictOrd(rec)}[c.Node])
	old := runtime.GOMAXPROCS(procs)
	done := make(chan string)
	go func() {
		how := "Panic"
		defer func() {
			recover()
			done <- how
		}()
		p.Run()
		how = "Big"
	}()
	how := "Hang"
	select {
	case how = <-done:
	case <-time.After(100 * time.Second):
	}
	runtime.GOMAXPROCS(old)
	if how != "Big" {
		R.Trace([]E{{"e": how}})
		if how == "Hang" {
			R.BigHang()
		}
		R.Leak()
		return
	}
	reqs, lens := []int{}, []int{}
	for _, e := range vsched.Events() {
		if e["e"] == "Req" {
			reqs = append(reqs, e["n"].(int))
		}
	}
	slices.SortStableFunc(keep, func(x, y kept) int { return x.q - y.q })
	ok, again := true, true
	rest := want
	for i, k := range keep {
		n := len(k.nums)
		lens = append(lens, n)
		if k.q != i || n > len(rest) || !slices.Equal(k.nums, rest[:n]) {
			ok = false
			break
		}
		rest = rest[n:]
		again = again && slices.Equal(k.nums, numsOf(c.Kind, k.data))
	}
	R.Trace([]E{{"e": "Big", "ok": ok && len(rest) == 0, "again": again, "reqs": reqs, "lens": lens, "err": p.Err() != nil}})
}

func srcBigAll() {
	rep := 12
	max := 40000
	if R.tier == "thorough" {
		rep, max = 120, 400000
	}
	for i := 0; i < rep; i++ {
		for _, kind := range srcKinds {
			R.Unit(func() {
				rng := R.rng
				c := &sdesc{Kind: kind, N: []int{1000, 1024, 1025, 3072, 5000, 10240, max}[rng.Intn(7)], Known: i%2 == 0, Elem: rng.Intn(len(elemTypes)),
					Cap: []int{0, 1, 100, 5000}[rng.Intn(4)], Split: rng.Intn(2), Chunk: 1 + rng.Intn(5000),
					Node: []string{"ord", "seq", "par", "lpar", "strict"}[rng.Intn(5)]}
				if kind == "array" || kind == "single" || kind == "chan" {
					c.N = min(c.N, 5000)
				}
				if rng.Intn(2) == 0 {
					c.NB = []int{1, 2, 7, 64, 100, 1000, 1025, 2000, c.N - 1, c.N, 2 * c.N}[rng.Intn(11)]
					c.NB = min(c.NB, 3000)
				}
				if rng.Intn(2) == 0 {
					c.Inc = []int{3, 64, 100, 500, 1024, 4096}[rng.Intn(6)]
				}
				if rng.Intn(2) == 0 {
					c.Max = []int{20, 64, 500, 1000, 1024, 4096}[rng.Intn(6)]
				}
				runSrcBig(c, rng, []int{1, 8}[rng.Intn(2)])
			})
		}
	}
}
