package main

import (
	"context"
	"encoding/json"
	"runtime"
	"strings"
	gosync "sync"
	"sync/atomic"
	"time"

	"github.com/exascience/pargo/pipeline"
	"pargoverif/vsched"
)

// Pipelines with very many batches, run freely. One event summarizes the run.

type pbCase struct {
	Ks      string `json:"ks"` // kinds of nodes, each with a number of filters
	NB      int    `json:"nb"`
	Known   bool   `json:"known"`
	Trouble string `json:"trouble"` // none, cancel, err, serr
	F, Q    int    // where the trouble arises
	Hold    string `json:"hold"` // all, first: batches that are held in receiver F until nothing else happens
	Lim     int    `json:"lim"`
	Procs   int    `json:"procs"`
}

type pbFlt struct {
	n, dup, wrong, unord, cur, over int32
	fin, early, overlap             int32 // finalizers: calls; receivers afterwards; overlapping others, or receivers
	late                            int32
	told                            string
	started                         []int32
	prev                            int
	first, last                     bool // of its node
	node                            int
}

type pbNode struct{ cur, over, open, bad, ended int32 } // open: feeds in progress (nodes of the user)

type pbData struct{ q, prev int }

// pBig is the source, and collects what happens.
type pBig struct {
	c        *pbCase
	r        *prun
	flt      []*pbFlt // from 1
	node     []*pbNode
	fed      [][]int32
	prep     int32
	calls    []int
	begun    bool
	fetched  int32
	fopen    int32
	fbad     int32 // overlapping fetches, or fetches after an empty one or the return
	dry      int32
	pend     int32
	pbad     int32
	stopped  int32 // cancellation has taken effect
	after    int32
	ret      int32
	fins     int32
	serr     bool
	setBad   bool
	hold     map[int]chan bool
	holding  int32
	mu       gosync.Mutex
	cur      *pbData
	trouble  int32 // trouble has begun
	released int32
}

func (b *pBig) Err() error {
	if b.serr {
		return errSource
	}
	return nil
}
func (b *pBig) Prepare(context.Context) int {
	b.prep++
	if b.c.Known {
		return b.c.NB
	}
	return -1
}
func (b *pBig) Fetch(int) int {
	if atomic.AddInt32(&b.fopen, 1) > 1 || b.dry != 0 || atomic.LoadInt32(&b.ret) != 0 {
		atomic.StoreInt32(&b.fbad, 1)
	}
	if b.fetched == 0 {
		b.begun = b.prep == 1 && len(b.calls) == len(b.flt)-1
		for i, f := range b.calls {
			b.begun = b.begun && f == i+1
		}
	}
	if atomic.LoadInt32(&b.stopped) != 0 {
		b.after++
	}
	if b.pend != 0 {
		atomic.StoreInt32(&b.pbad, 1)
	}
	defer atomic.AddInt32(&b.fopen, -1)
	n := int(b.fetched)
	if b.c.NB > 1<<20 && n >= len(b.flt[1].started)-10 {
		for i := 0; b.c.Trouble != "serr" && atomic.LoadInt32(&b.stopped) == 0 && i < 200000; i++ { // nothing else is in the way
			time.Sleep(50 * time.Microsecond)
		}
		if n > len(b.flt[1].started)+5 { // endless
			return 0
		}
	}
	if b.c.Trouble == "serr" && n >= b.c.Q {
		atomic.StoreInt32(&b.trouble, 1)
		b.serr = true
	}
	if n < b.c.NB {
		b.cur = &pbData{q: n}
		b.fetched++
		b.pend = 1
		return 1
	}
	b.dry = 1
	return 0
}
func (b *pBig) Data() interface{} {
	b.pend = 0
	return b.cur
}

func maxTo(p *int32, x int32) {
	for {
		if y := atomic.LoadInt32(p); y >= x || atomic.CompareAndSwapInt32(p, y, x) {
			return
		}
	}
}

func (b *pBig) recv(id, q int, data interface{}) interface{} {
	f := b.flt[id]
	k := atomic.AddInt32(&f.n, 1)
	if atomic.LoadInt32(&b.ret) != 0 {
		atomic.StoreInt32(&f.late, 1)
	}
	if atomic.LoadInt32(&f.fin) != 0 {
		atomic.StoreInt32(&f.early, 1)
	}
	maxTo(&f.over, atomic.AddInt32(&f.cur, 1))
	if f.first {
		maxTo(&b.node[f.node].over, atomic.AddInt32(&b.node[f.node].cur, 1))
	}
	if int(k)-1 != q {
		atomic.StoreInt32(&f.unord, 1)
	}
	d, ok := data.(*pbData)
	if !ok || d == nil || d.q != q || d.prev != f.prev || q < 0 || q >= len(f.started) {
		atomic.StoreInt32(&f.wrong, 1)
	} else if atomic.AddInt32(&f.started[q], 1) > 1 {
		atomic.StoreInt32(&f.dup, 1)
	}
	if b.c.Hold != "" && id == b.c.F && b.hold[q] != nil {
		atomic.AddInt32(&b.holding, 1)
		<-b.hold[q]
		atomic.AddInt32(&b.holding, -1)
	} else if q%3 == id%3 {
		runtime.Gosched()
	}
	if b.c.F == id && b.c.Q == q {
		switch b.c.Trouble {
		case "cancel":
			atomic.StoreInt32(&b.trouble, 1)
			b.r.p.Cancel()
			atomic.StoreInt32(&b.stopped, 1)
		case "err":
			atomic.StoreInt32(&b.trouble, 1)
			if !b.r.p.SetErr(perr(1)) {
				b.setBad = true
			}
			atomic.StoreInt32(&b.stopped, 1)
			if b.r.p.SetErr(perr(2)) || errID(b.r.p.Err()) != 1 {
				b.setBad = true
			}
		}
	}
	if f.last {
		atomic.AddInt32(&b.node[f.node].cur, -1)
	}
	atomic.AddInt32(&f.cur, -1)
	return &pbData{q, id}
}

func (b *pBig) fin(id int) {
	f := b.flt[id]
	if atomic.AddInt32(&b.fins, 1) > 1 || b.c.Trouble != "err" && b.c.Trouble != "serr" && atomic.LoadInt32(&f.cur) != 0 {
		atomic.StoreInt32(&f.overlap, 1)
	}
	if atomic.LoadInt32(&b.ret) != 0 {
		atomic.StoreInt32(&f.late, 1)
	}
	atomic.AddInt32(&f.fin, 1)
	runtime.Gosched()
	atomic.AddInt32(&b.fins, -1)
}

func (b *pBig) filter(id int, pf pfilt) pipeline.Filter {
	return func(p *pipeline.Pipeline, kind pipeline.NodeKind, size *int) (rec pipeline.Receiver, fin pipeline.Finalizer) {
		b.calls = append(b.calls, id)
		b.flt[id].told = map[pipeline.NodeKind]string{pipeline.Ordered: "ord", pipeline.Sequential: "seq"}[kind]
		if b.flt[id].told == "" {
			b.flt[id].told = "par"
		}
		if pf.R {
			rec = func(q int, data interface{}) interface{} { return b.recv(id, q, data) }
		}
		if pf.Z {
			fin = func() { b.fin(id) }
		}
		return
	}
}

// nodes of the user
func (b *pBig) feed(id, q int) {
	n := b.node[id-1]
	atomic.AddInt32(&n.open, 1)
	if atomic.LoadInt32(&n.ended) != 0 || q < 0 || q >= len(b.fed[id-1]) || atomic.AddInt32(&b.fed[id-1][q], 1) > 1 {
		atomic.StoreInt32(&n.bad, 1)
	}
}
func (b *pBig) feedEnd(id int) { atomic.AddInt32(&b.node[id-1].open, -1) }
func (b *pBig) nodeEnd(id int) {
	n := b.node[id-1]
	failing := b.c.Trouble == "err" || b.c.Trouble == "serr"
	if atomic.AddInt32(&n.ended, 1) > 1 || !failing && atomic.LoadInt32(&n.open) != 0 {
		atomic.StoreInt32(&n.bad, 1)
	}
	if b.c.Trouble == "none" {
		for q := 0; q < b.c.NB; q++ {
			if atomic.LoadInt32(&b.fed[id-1][q]) != 1 {
				atomic.StoreInt32(&n.bad, 1)
			}
		}
	}
}

func runPipeBig(c *pbCase) {
	if R.nobig {
		return
	}
	pc := &pcase{NB: c.NB, Known: c.Known, Ctx: c.Procs == 8}
	for i, k := range strings.Fields(c.Ks) {
		n := pnode{K: strings.TrimRight(k, "23"), Lim: c.Lim, Own: 1, F: []pfilt{{R: true, Z: i%2 == 0}}}
		for j := strings.Count(k, "2") + 2*strings.Count(k, "3"); j > 0; j-- {
			n.F = append(n.F, pfilt{R: true, Z: j == 2})
		}
		pc.Nodes = append(pc.Nodes, n)
	}
	desc, _ := json.Marshal(c)
	cfg := pcfg(pc)
	cfg["trouble"], cfg["hold"], cfg["nb"], cfg["at"] = c.Trouble, c.Hold, c.NB, c.F
	size := c.NB
	if c.NB > 1<<20 {
		size = c.Q + 1000
		cfg["nb"] = -1
	}
	R.Cur(string(desc), cfg)
	base := vsched.WaitQuiet()
	vsched.Begin(false, nil)
	b := &pBig{c: c, hold: map[int]chan bool{}, flt: []*pbFlt{nil}}
	prev := 0
	for i, n := range pc.Nodes {
		for j := range n.F {
			b.flt = append(b.flt, &pbFlt{started: make([]int32, size), prev: prev, node: i, first: j == 0, last: j == len(n.F)-1})
			prev = len(b.flt) - 1
		}
		b.node = append(b.node, &pbNode{})
		b.fed = append(b.fed, make([]int32, size))
	}
	switch c.Hold {
	case "all":
		for q := 0; q < c.NB; q++ {
			b.hold[q] = make(chan bool)
		}
	case "first":
		b.hold[0] = make(chan bool)
	}
	pc.Free = true
	b.r = newPrunWith(pc, b)
	old := runtime.GOMAXPROCS(c.Procs)
	e := E{}
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() {
			if p := recover(); p != nil {
				e = E{"e": "Panic"}
			}
		}()
		if b.r.ctx != nil {
			b.r.p.RunWithContext(b.r.ctx, b.r.cancel)
		} else {
			b.r.p.Run()
		}
		atomic.StoreInt32(&b.ret, 1)
		act := 0
		var fs, ns []E
		for _, f := range b.flt[1:] {
			act += int(atomic.LoadInt32(&f.cur))
			fs = append(fs, E{"fin": int(atomic.LoadInt32(&f.fin))})
		}
		for range b.node {
			ns = append(ns, E{})
		}
		e = E{"e": "Big", "act": act, "flt": fs, "node": ns, "err": errID(b.r.p.Err())}
	}()
	held := 0
	if c.Hold != "" {
		vsched.WaitQuiet()
		vsched.Confirm(func() bool { return int(atomic.LoadInt32(&b.holding)) < len(b.hold) })
		held = int(atomic.LoadInt32(&b.holding))
		for q := range b.hold {
			close(b.hold[q])
		}
	}
	select {
	case <-done:
	case <-time.After(100 * time.Second):
	}
	runtime.GOMAXPROCS(old)
	if e["e"] == nil {
		R.Trace([]E{{"e": "Hang"}})
		R.BigHang()
		return
	}
	b.r.finish()
	leak := vsched.Leaked(base)
	if e["e"] == "Big" {
		for i, f := range b.flt[1:] {
			x := e["flt"].([]E)[i]
			for k, v := range map[string]int32{"n": f.n, "over": f.over, "fins": f.fin} {
				x[k] = int(v)
			}
			for k, v := range map[string]int32{"dup": f.dup, "wrong": f.wrong, "unord": f.unord, "early": f.early, "overlap": f.overlap, "late": f.late} {
				x[k] = v != 0
			}
			x["told"] = f.told
		}
		for i, n := range b.node {
			x := e["node"].([]E)[i]
			x["over"], x["bad"], x["ended"] = int(n.over), n.bad != 0, int(n.ended)
		}
		for k, v := range map[string]int32{"fbad": b.fbad, "pbad": b.pbad, "trouble": b.trouble} {
			e[k] = v != 0
		}
		e["fetched"], e["after"], e["begun"], e["setbad"], e["held"] = int(b.fetched), int(b.after), b.begun, b.setBad, held
	}
	ev := []E{e}
	if leak {
		ev = append(ev, E{"e": "Leak"})
	}
	R.Trace(ev)
	if leak {
		R.Leak()
	}
}

func pipeBigAll(calm bool) {
	sizes := []int{700, 2500}
	if R.tier == "thorough" {
		sizes = append(sizes, 6000, 12000)
	}
	shapes := []string{"par", "ord", "strict", "seq", "lpar", "par ord", "par strict", "par seq", "lpar ord", "lpar strict", "seq par ord",
		"par2 lpar ord2", "own par strict", "par own seq", "lpar2 par lpar3 seq", "ord par2 strict lpar", "par seq2 lpar own ord"}
	troubles := []string{"none", "cancel", "err", "serr"}
	if calm {
		troubles = troubles[:1]
	}
	for _, nb := range sizes {
		for i, ks := range shapes {
			ks := ks
			R.Unit(func() {
				nf := 0
				for _, k := range strings.Fields(ks) {
					nf += 1 + strings.Count(k, "2") + 2*strings.Count(k, "3")
				}
				for j, tr := range troubles {
					c := &pbCase{Ks: ks, NB: nb, Known: (i+j)%2 == 0, Trouble: tr, F: 1 + R.rng.Intn(nf), Q: R.rng.Intn(nb), Procs: []int{1, 8}[R.rng.Intn(2)]}
					c.Lim = []int{3, nb / 2, nb + 100}[R.rng.Intn(3)]
					if tr != "none" && !c.Known { // endless
						c.NB = 1 << 30
					}
					runPipeBig(c)
				}
				for _, h := range []string{"all", "first"} {
					// a parallel or limited parallel node before which nothing can be in the way
					runPipeBig(&pbCase{Ks: ks, NB: nb, Known: i%2 == 0, Trouble: "none", F: 1, Hold: h, Lim: nb * 2 / 3, Procs: []int{1, 8}[R.rng.Intn(2)]})
				}
			})
		}
	}
}
