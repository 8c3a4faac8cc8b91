package main

import (
	"encoding/json"
	"runtime"
	"strings"
	"sync/atomic"
	"time"

	"pargoverif/vsched"
)

// Large calls of fork-join functions: thousands of functions, batches, or
// splits run freely. One event summarizes the call.

type fjBig struct {
	start, end       []int32 // invocations per position
	running          int32
	over             int32
	late, bad, twice int32 // after the return; not one at a time in order; overlapping in sequential calls
	last             int32
	hold             chan bool // set: positions right of the special one are held
	at, dec          int32     // the special position, and where the batch with it began if it was invoked
}

func (b *fjBig) leaf(r *fjRun, lo, hi int) (stop, val bool, v iv) {
	if atomic.LoadInt32(&b.over) != 0 {
		atomic.AddInt32(&b.late, 1)
	}
	if r.kind == "seq" && !r.fn.lazy {
		if atomic.AddInt32(&b.running, 1) > 1 || int(atomic.SwapInt32(&b.last, int32(hi))) > lo || goid() != r.goid {
			atomic.StoreInt32(&b.bad, 1)
		}
	}
	if r.mark != nil && r.mark(lo)["locked"] != true {
		atomic.StoreInt32(&b.bad, 1)
	}
	if lo <= int(b.at) && int(b.at) < hi {
		atomic.StoreInt32(&b.dec, int32(lo))
	}
	if lo < 0 || hi > len(b.start) || lo >= hi {
		atomic.StoreInt32(&b.twice, 1)
		return
	}
	for p := lo; p < hi; p++ {
		if atomic.AddInt32(&b.start[p], 1) > 1 {
			atomic.StoreInt32(&b.twice, 1)
		}
	}
	if b.hold != nil && lo > int(b.at) {
		<-b.hold
	}
	if lo%5 == 0 && r.kind != "seq" {
		runtime.Gosched()
	}
	for p := lo; p < hi; p++ {
		atomic.AddInt32(&b.end[p], 1)
	}
	if r.kind == "seq" {
		atomic.AddInt32(&b.running, -1)
	}
	switch r.leafOutcome(lo, hi) {
	case "p":
		r.doPanicIn(0, r.c.Panic, lo)
	case "s":
		stop = true
	case "t":
		val = true
	}
	return stop, val, iv{lo, hi}
}

func (b *fjBig) join(x, y iv) (iv, bool) {
	if x.Hi != y.Lo {
		return badIv, false
	}
	return iv{x.Lo, y.Hi}, false
}

// runFJBig makes a call with at most one special outcome, "p", "s", or "v" (a
// value that decides the result), at position at.
func runFJBig(name string, fn *fjFn, size, n, at int, o string, procs int) {
	if R.nobig {
		return
	}
	low := 0
	if fn.rng {
		low = R.rng.Intn(2000) - 1000
	}
	hold := o == "h"
	if hold {
		o = "s"
	}
	c := &fjCase{Fn: name, Low: low, Size: size, N: n, Out: make([]string, size), Panic: R.rng.Intn(10)}
	for i := range c.Out {
		c.Out[i] = "t"
		if fn.isOr {
			c.Out[i] = "f"
		}
	}
	switch o {
	case "p", "s":
		c.Out[at] = o
	case "v":
		if c.Out[at] = "f"; fn.isOr {
			c.Out[at] = "t"
		}
	}
	marks := 0
	if fn.cls == "sum" && !strings.Contains(name, "String") {
		c.Vals = make([]int, size)
		for i := range c.Vals {
			if c.Vals[i] = 1; R.rng.Intn(size) < 5 && marks < 10 {
				c.Vals[i] = 3
				marks++
			}
		}
	}
	r := newFJRun(fn, c)
	cfg := r.cfg()
	cfg["first"], cfg["at"], cfg["marks"] = o, at, marks
	desc, _ := json.Marshal(E{"fn": name, "size": size, "n": n, "at": at, "o": o, "procs": procs})
	R.Cur(string(desc), cfg)
	plain = nil
	if c.Vals != nil {
		plain = c
	}
	if fn.prep != nil {
		fn.prep(r)
	}
	b := &fjBig{start: make([]int32, size), end: make([]int32, size), at: -1, dec: -1}
	if o != "none" {
		b.at = int32(at)
	}
	if hold {
		b.hold = make(chan bool)
	}
	r.big = b
	base := vsched.WaitQuiet()
	vsched.Begin(false, nil)
	zeroIv = badIv
	old := runtime.GOMAXPROCS(procs)
	e := E{}
	done := make(chan bool)
	go func() {
		defer close(done)
		r.goid = goid()
		ret := E{"e": "Panic", "ids": []int{}, "err": false, "rt": false, "same": false}
		func() {
			defer func() {
				if p := recover(); p != nil {
					ret = panicEvent(p, r)
				}
				atomic.StoreInt32(&b.over, 1)
			}()
			ret = fn.call(r)
		}()
		all, left, act := true, true, 0
		for p := range b.start {
			x, y := atomic.LoadInt32(&b.start[p]), atomic.LoadInt32(&b.end[p])
			if y != 1 {
				all = false
				if p < int(b.dec) {
					left = false
				}
			}
			if x != y {
				act++
			}
		}
		d := []int{}
		err, rt := false, false
		if b.dec >= 0 {
			d = []int{int(b.dec)}
			_, err, rt = panicKind(c.Panic, int(b.dec))
		}
		e = E{"e": "Big", "all": all, "left": left, "act": act, "ret": ret, "d": d, "err": err, "rt": rt}
	}()
	early := true
	if hold {
		vsched.WaitQuiet()
		early = !vsched.Confirm(func() bool { return atomic.LoadInt32(&b.over) == 0 })
		close(b.hold)
	}
	select {
	case <-done:
	case <-time.After(100 * time.Second):
	}
	runtime.GOMAXPROCS(old)
	if e["e"] == nil {
		vsched.Log(E{"e": "Hang"})
		R.Trace(vsched.Events())
		R.BigHang()
		return
	}
	leak := vsched.Leaked(base)
	e["most"] = b.twice == 0
	e["order"] = b.bad == 0
	e["late"] = int(b.late)
	e["early"] = early
	ev := []E{e}
	if leak {
		ev = append(ev, E{"e": "Leak"})
	}
	R.Trace(ev)
	if leak {
		R.Leak()
	}
}

func fjBigAll(name string, fn *fjFn) {
	sizes := []int{600, 1500, 5000}
	if R.tier == "thorough" {
		sizes = append(sizes, 20000, 1<<16+1)
	}
	if fn.lazy {
		sizes = []int{300, 1500}
	}
	specials := []string{"none", "p"}
	switch {
	case fn.kind == "spec":
		specials = append(specials, "s", "h")
	case fn.cls == "and" || fn.cls == "or":
		specials = append(specials, "v")
	case fn.kind == "seq" && R.props == "C02":
		specials = specials[:1]
	}
	for _, size := range sizes {
		if size > 5000 && strings.Contains(name, "StringSum") {
			continue
		}
		R.Unit(func() {
			for i, o := range specials {
				n, at := size, R.rng.Intn(size)
				if fn.rng && o == "none" && R.rng.Intn(2) == 0 {
					n = 1 + R.rng.Intn(size)
				}
				if fn.cls == "sum" {
					n = size
				}
				runFJBig(name, fn, size, n, at, o, []int{1, 8}[(size+i)%2])
			}
		})
	}
}
