package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/exascience/pargo/pipeline"
	"pargoverif/vsched"
)

// Suite pipe: runs of pipelines with filters, finalizers and a source that are
// held and released in every order, cancelled and failed at every point.

type pfilt struct {
	R   bool   `json:"r"`             // has a receiver
	Z   bool   `json:"z"`             // has a finalizer
	At  string `json:"at,omitempty"`  // what the filter function does: cancel, err
	Fin string `json:"fin,omitempty"` // what the finalizer does: cancel, err
	Std bool   `json:"std,omitempty"` // built by Receive, Finalize, ReceiveAndFinalize, or Identity
}

type pnode struct {
	K   string  `json:"k"`
	Lim int     `json:"lim"`
	F   []pfilt `json:"f"`
	New bool    `json:"new,omitempty"` // created by NewNode
	Own int     `json:"own,omitempty"` // own node: 1 always, 2 never wants to be fed
}

type pact struct {
	F, Q int
	A    string // cancel, err, drop, ask
}

type pcase struct {
	Nodes []pnode `json:"nodes"`
	NB    int     `json:"nb"`
	Known bool    `json:"known"`
	Act   []pact  `json:"act,omitempty"`
	Ext   string  `json:"ext,omitempty"`  // cancel, ctx, err
	SErr  int     `json:"serr,omitempty"` // the source fails with the batch of this number (from 1)
	Ctx   bool    `json:"ctx,omitempty"`  // RunWithContext
	Nest  []pnest `json:"nest,omitempty"` // pipelines that receivers run
	Late  bool    `json:"late,omitempty"` // among several: starts at any time
	Free  bool    `json:"free,omitempty"` // fetches are not held
	Once  bool    `json:"once,omitempty"` // all nodes are added by one call
	Over  bool    `json:"over,omitempty"` // the context is done before the run starts
	CtxK  int     `json:"ctxk,omitempty"` // kind of the context
}

type pnest struct {
	F, Q int
	C    *pcase
}

var errSource = errors.New("the source's error")

type perr int

func (e perr) Error() string { return fmt.Sprint("error ", int(e)) }

func errID(err error) int {
	switch e := err.(type) {
	case nil:
		return 0
	case perr:
		return int(e)
	}
	if err == errSource {
		return 99
	}
	return -1
}

type prun struct {
	c      *pcase
	tag    int // among several pipelines, from 1
	subs   []*prun
	begun  bool
	cancel context.CancelFunc
	ctx    context.Context
	p      *pipeline.Pipeline
	nerr   int32 // attempts to set an error
	win    int32 // the successful one, known after it returned
	done   bool
	parent context.CancelFunc
	n      int // fetched batches
	cur    []int
	serr   bool
	big    *pBig
}

func plog(x interface{}) []int {
	switch d := x.(type) {
	case []int:
		return d
	case nil:
		return []int{-1}
	}
	return []int{-2}
}

func (r *prun) tagged(e E) E {
	if r.tag > 0 {
		e["call"] = r.tag
	}
	return e
}
func (r *prun) log(e E) { vsched.Log(r.tagged(e)) }
func (r *prun) logPark(e E, g *vsched.Gate) {
	vsched.LogPark(r.tagged(e), g)
}

func (r *prun) do(a string) {
	switch a {
	case "cancel":
		r.log(E{"e": "CStart"})
		r.p.Cancel()
		r.log(E{"e": "CEnd", "ctx": r.p.Context().Err() != nil})
	case "ctx":
		r.log(E{"e": "CStart"})
		r.parent()
		r.log(E{"e": "CEnd", "ctx": r.p.Context().Err() != nil})
	case "err":
		id := int(atomic.AddInt32(&r.nerr, 1))
		r.log(E{"e": "SStart", "id": id})
		ok := r.p.SetErr(perr(id))
		ctx := r.p.Context().Err() != nil
		if ok {
			atomic.StoreInt32(&r.win, int32(id))
		}
		r.log(E{"e": "SEnd", "id": id, "ok": ok, "ctx": ctx})
	case "ask":
		p := int(atomic.LoadInt32(&r.win))
		e := errID(r.p.Err())
		r.log(E{"e": "Err", "p": p, "r": e})
	}
}

// prun is the source.
func (r *prun) Err() error {
	if r.serr {
		r.log(E{"e": "SErr"})
		return errSource
	}
	return nil
}
func (r *prun) Prepare(ctx context.Context) int {
	r.log(E{"e": "Prep", "ok": ctx.Done() == r.p.Context().Done()})
	if r.c.Ext != "" {
		go func() {
			vsched.Park(&vsched.Gate{Label: "ext", Key: r.tag * 100000})
			r.do(r.c.Ext)
			r.do("ask")
		}()
	}
	if r.c.Known {
		return r.c.NB
	}
	return -1
}
func (r *prun) Fetch(n int) int {
	if r.c.Free {
		r.log(E{"e": "Fetch"})
	} else {
		r.logPark(E{"e": "Fetch"}, &vsched.Gate{Label: "fetch", Key: r.tag * 100000})
	}
	got := 0
	if r.n < r.c.NB {
		got = 1
		r.cur = []int{r.n}
		r.n++
	}
	if r.c.SErr > 0 && (r.n >= r.c.SErr || got == 0) {
		r.serr = true
	}
	r.log(E{"e": "Fetched", "n": got})
	return got
}
func (r *prun) Data() interface{} {
	r.log(E{"e": "Data"})
	return r.cur
}

func (r *prun) filter(f int, pf pfilt) pipeline.Filter {
	if r.big != nil {
		return r.big.filter(f, pf)
	}
	custom := func(p *pipeline.Pipeline, kind pipeline.NodeKind, size *int) (rec pipeline.Receiver, fin pipeline.Finalizer) {
		k := "par"
		switch kind {
		case pipeline.Ordered:
			k = "ord"
		case pipeline.Sequential:
			k = "seq"
		}
		if !pf.Std {
			sz := *size
			switch (f + r.c.NB) % 4 {
			case 0:
				*size = 100 + f
			case 1:
				*size = -1
			}
			r.log(E{"e": "Flt", "f": f, "k": k, "sz": sz, "set": *size, "same": p == r.p})
			r.do(pf.At)
		}
		if pf.R {
			rec = func(q int, data interface{}) interface{} {
				r.logPark(E{"e": "Start", "f": f, "q": q, "d": plog(data)}, &vsched.Gate{Label: "recv", Key: r.tag*100000 + f*1000 + q})
				var out interface{}
				if d, ok := data.([]int); ok {
					out = append(append([]int{}, d...), 10+f)
				} else if data != nil {
					out = []int{-3}
				}
				for i, n := range r.c.Nest {
					if n.F == f && n.Q == q {
						r.subs[i].exec()
					}
				}
				for _, a := range r.c.Act {
					if a.F == f && a.Q == q {
						if a.A == "drop" {
							out = nil
						}
						r.do(a.A)
					}
				}
				r.log(E{"e": "End", "f": f, "q": q, "d": plog(out)})
				return out
			}
		}
		if pf.Z {
			fin = func() {
				r.logPark(E{"e": "FStart", "f": f}, &vsched.Gate{Label: "fin", Key: f * 1000})
				r.do(pf.Fin)
				r.log(E{"e": "FEnd", "f": f})
			}
		}
		return
	}
	if pf.Std {
		rec, fin := custom(nil, pipeline.Parallel, nil)
		switch {
		case rec != nil && fin != nil:
			return pipeline.ReceiveAndFinalize(rec, fin)
		case rec != nil:
			return pipeline.Receive(rec)
		case fin != nil:
			return pipeline.Finalize(fin)
		}
		return pipeline.Identity
	}
	return custom
}

// ownNode is a node that is not one of the library's: it processes batches in
// the goroutines that feed it.
type ownNode struct {
	r    *prun
	id   int // from 1
	keep int
	fs   []pipeline.Filter
	rec  []pipeline.Receiver
	fin  []pipeline.Finalizer
}

func (n *ownNode) TryMerge(pipeline.Node) bool { return false }
func (n *ownNode) Begin(p *pipeline.Pipeline, _ int, size *int) bool {
	n.rec, n.fin = pipeline.ComposeFilters(p, pipeline.Parallel, size, n.fs)
	keep := n.keep == 1 || n.keep == 0 && len(n.rec)+len(n.fin) > 0
	n.r.log(E{"e": "NBegin", "n": n.id, "keep": keep})
	return keep
}
func (n *ownNode) Feed(p *pipeline.Pipeline, index, seqNo int, data interface{}) {
	if n.r.big != nil {
		n.r.big.feed(n.id, seqNo)
		for _, r := range n.rec {
			data = r(seqNo, data)
		}
		p.FeedForward(index, seqNo, data)
		n.r.big.feedEnd(n.id)
		return
	}
	n.r.log(E{"e": "NFeed", "n": n.id, "q": seqNo})
	for _, r := range n.rec {
		data = r(seqNo, data)
	}
	p.FeedForward(index, seqNo, data)
	n.r.log(E{"e": "NFed", "n": n.id, "q": seqNo})
}
func (n *ownNode) End() {
	if n.r.big != nil {
		n.r.big.nodeEnd(n.id)
	}
	n.r.log(E{"e": "NEnd", "n": n.id})
	for _, f := range n.fin {
		f()
	}
}

func pcfg(c *pcase) E {
	var nodes, flt []E
	for i, n := range c.Nodes {
		k, lim := n.K, n.Lim
		if k == "lpar" {
			if lim <= 0 {
				lim = 2 // see runPipe
			}
			if lim == 1 {
				k = "seq"
			}
		}
		nodes = append(nodes, E{"k": k, "lim": lim})
		for _, f := range n.F {
			never := n.K == "own" && n.Own == 2
			flt = append(flt, E{"node": i + 1, "r": f.R && !never, "z": f.Z && !never, "std": f.Std})
		}
	}
	if nodes == nil {
		nodes = []E{}
	}
	if flt == nil {
		flt = []E{}
	}
	size := -1
	if c.Known {
		size = c.NB
	}
	return E{"nodes": nodes, "flt": flt, "size": size}
}

// newPrun creates a pipeline, and those that its receivers run.
func newPrun(c *pcase) *prun { return newPrunWith(c, nil) }

func newPrunWith(c *pcase, b *pBig) *prun {
	r := &prun{c: c, p: &pipeline.Pipeline{}, parent: func() {}, big: b}
	if b != nil {
		r.p.Source(b)
	} else {
		r.p.Source(r)
	}
	f := 0
	var all []pipeline.Node
	for i, n := range c.Nodes {
		var fs []pipeline.Filter
		for _, pf := range n.F {
			f++
			fs = append(fs, r.filter(f, pf))
		}
		var node pipeline.Node
		switch {
		case n.K == "ord" && n.New:
			node = pipeline.NewNode(pipeline.Ordered, fs...)
		case n.K == "seq" && n.New:
			node = pipeline.NewNode(pipeline.Sequential, fs...)
		case n.K == "par" && n.New:
			node = pipeline.NewNode(pipeline.Parallel, fs...)
		case n.K == "ord":
			node = pipeline.Ord(fs...)
		case n.K == "seq":
			node = pipeline.Seq(fs...)
		case n.K == "par":
			node = pipeline.Par(fs...)
		case n.K == "own":
			node = &ownNode{r: r, id: i + 1, keep: n.Own, fs: fs}
		case n.K == "strict":
			node = pipeline.StrictOrd(fs...)
		case n.K == "lpar":
			if n.Lim == 0 { // the default is the number of processors
				runtime.GOMAXPROCS(2)
			}
			node = pipeline.LimitedPar(n.Lim, fs...)
			runtime.GOMAXPROCS(1)
		}
		if all = append(all, node); !c.Once {
			r.p.Add(node)
		}
	}
	if c.Once {
		r.p.Add(all...)
	}
	if c.Ctx || c.Ext == "ctx" {
		r.ctx, r.cancel, r.parent = newCtx(c.CtxK)
	}
	for _, n := range c.Nest {
		r.subs = append(r.subs, newPrun(n.C))
	}
	return r
}

// ownCtx is a context that is not one of the standard library's.
type ownCtx struct {
	mu   sync.Mutex
	done chan struct{}
	err  error
}

func (c *ownCtx) Deadline() (time.Time, bool)   { return time.Time{}, false }
func (c *ownCtx) Value(interface{}) interface{} { return nil }
func (c *ownCtx) Done() <-chan struct{}         { return c.done }
func (c *ownCtx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *ownCtx) end(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err == nil {
		c.err = err
		close(c.done)
	}
}

// lateCtx has run out of time when it is done.
type lateCtx struct{ context.Context }

func (c lateCtx) Err() error {
	if c.Context.Err() != nil {
		return context.DeadlineExceeded
	}
	return nil
}

// newCtx makes a context; it can be cancelled by itself, or otherwise.
func newCtx(kind int) (context.Context, context.CancelFunc, context.CancelFunc) {
	parent, end := context.WithCancel(context.Background())
	switch kind {
	case 1: // with a deadline
		ctx, cancel := context.WithDeadline(parent, time.Now().Add(time.Hour))
		return ctx, cancel, end
	case 2:
		return lateCtx{parent}, end, end
	case 3:
		c := &ownCtx{done: make(chan struct{})}
		end()
		return c, func() { c.end(context.Canceled) }, func() { c.end(errors.New("not any more")) }
	case 4:
		ctx, cancel := context.WithCancelCause(parent)
		return ctx, func() { cancel(errSource) }, end
	}
	ctx, cancel := context.WithCancel(parent)
	return ctx, cancel, end
}

func (r *prun) exec() {
	defer func() {
		if !r.done {
			recover()
			r.log(E{"e": "Panic"})
			r.done = true
		}
	}()
	if r.tag > 0 {
		r.log(E{"e": "Begin"})
	}
	r.begun = true
	if r.ctx != nil && r.c.Over {
		r.log(E{"e": "CStart"})
		r.parent()
		r.log(E{"e": "CEnd", "ctx": r.ctx.Err() != nil})
	}
	if r.ctx != nil {
		r.p.RunWithContext(r.ctx, r.cancel)
	} else {
		r.p.Run()
	}
	r.log(E{"e": "Ret"})
	r.log(E{"e": "RErr", "r": errID(r.p.Err())})
	r.done = true
}

// finish cancels what is left of a run.
func (r *prun) finish() {
	if r.cancel != nil {
		r.cancel()
		r.parent()
	}
}

func runPipe(c *pcase, pick func(ps []*vsched.Gate) *vsched.Gate, delays []vsched.Point) {
	desc, _ := json.Marshal(c)
	R.Cur(string(desc), pcfg(c))
	base := vsched.WaitQuiet()
	vsched.Begin(false, nil)
	r := newPrun(c)
	vsched.Mode(R.instrumented, delays)
	go r.exec()
	ok := vsched.Drive(pick, func() bool { return r.done }, nil)
	if ok {
		r.finish()
		vsched.Open() // delayed statements
		if vsched.Leaked(base) {
			vsched.Log(E{"e": "Leak"})
			ok = false
		}
	}
	R.Trace(vsched.Events())
	if !ok {
		vsched.Open()
		R.Leak()
	}
}

// runPipes runs several pipelines in one execution, some of them within
// receivers of others. Each of them has its own trace.
func runPipes(cs []*pcase, pick func(ps []*vsched.Gate) *vsched.Gate, delays []vsched.Point) {
	desc, _ := json.Marshal(cs)
	R.Cur(string(desc), pcfg(cs[0]))
	base := vsched.WaitQuiet()
	vsched.Begin(false, nil)
	var all, roots []*prun
	var walk func(r *prun)
	walk = func(r *prun) {
		all = append(all, r)
		r.tag = len(all)
		for _, s := range r.subs {
			walk(s)
		}
	}
	for _, c := range cs {
		r := newPrun(c)
		roots = append(roots, r)
		walk(r)
	}
	vsched.Mode(R.instrumented, delays)
	for _, r := range roots {
		go func() {
			if r.c.Late {
				vsched.Park(&vsched.Gate{Label: "root", Key: 100000 * r.tag})
			}
			r.exec()
		}()
	}
	ok := vsched.Drive(pick, func() bool {
		for _, r := range roots {
			if !r.done {
				return false
			}
		}
		for _, r := range all {
			if r.begun && !r.done {
				return false
			}
		}
		return true
	}, nil)
	if ok {
		for _, r := range all {
			r.finish()
		}
		vsched.Open() // delayed statements
		if vsched.Leaked(base) {
			vsched.Log(E{"e": "Leak"})
			ok = false
		}
	}
	ev := vsched.Events()
	for _, r := range all {
		var mine []E
		begun, over := false, false
		for _, e := range ev {
			switch e["e"] {
			case "Quiesce", "Leak":
				if begun && (len(mine) == 0 || mine[len(mine)-1]["e"] != e["e"]) {
					mine = append(mine, e)
				}
				continue
			case "Hang":
				if begun && !over {
					mine = append(mine, e)
				}
				continue
			}
			if e["call"] != r.tag {
				continue
			}
			if e["e"] == "Begin" {
				begun = true
				continue
			}
			if e["e"] == "RErr" || e["e"] == "Panic" {
				over = true
			}
			f := E{}
			for k, v := range e {
				if k != "call" {
					f[k] = v
				}
			}
			mine = append(mine, f)
		}
		if begun {
			R.Cur(string(desc), pcfg(r.c))
			R.Trace(mine)
		}
	}
	if !ok {
		vsched.Open()
		R.Leak()
	}
}

func gateRank(g *vsched.Gate) int {
	switch g.Label {
	case "fetch":
		return 1
	case "ext":
		return 2
	}
	return 10 + g.Key
}

// pipeOrder returns one of several strategies to release gates.
func pipeOrder(rng *rand.Rand) func(ps []*vsched.Gate) *vsched.Gate {
	hold := rng.Intn(3) > 0 // delayed statements are released last
	how := rng.Intn(7)
	starve := 1000*(1+rng.Intn(4)) + rng.Intn(4)
	extAt := rng.Intn(25)
	if rng.Intn(3) == 0 {
		extAt = 1000
	}
	eager := rng.Intn(2) == 0 // fetch as early as possible
	step := 0
	return func(ps []*vsched.Gate) *vsched.Gate {
		step++
		if step >= extAt {
			for _, g := range ps {
				if g.Label == "ext" {
					return g
				}
			}
		}
		filter := func(keep func(g *vsched.Gate) bool) {
			var q []*vsched.Gate
			for _, g := range ps {
				if keep(g) {
					q = append(q, g)
				}
			}
			if len(q) > 0 {
				ps = q
			}
		}
		if hold {
			filter(func(g *vsched.Gate) bool { return !g.Delay })
		}
		filter(func(g *vsched.Gate) bool { return g.Label != "ext" })
		if eager {
			filter(func(g *vsched.Gate) bool { return g.Label == "fetch" })
		}
		by := func(less func(a, b int) bool) *vsched.Gate {
			best := ps[0]
			for _, g := range ps {
				if less(gateRank(g), gateRank(best)) {
					best = g
				}
			}
			return best
		}
		switch how {
		case 0: // highest batches first
			return by(func(a, b int) bool { return a%1000 > b%1000 || a%1000 == b%1000 && a < b })
		case 1: // last nodes first
			return by(func(a, b int) bool { return a/1000 > b/1000 || a/1000 == b/1000 && a > b })
		case 2: // first nodes first, highest batches first
			return by(func(a, b int) bool { return a/1000 < b/1000 || a/1000 == b/1000 && a > b })
		case 3: // one invocation is starved
			filter(func(g *vsched.Gate) bool { return g.Key != starve })
		case 4: // all of a filter are starved
			filter(func(g *vsched.Gate) bool { return g.Key/1000 != starve/1000 })
		}
		return ps[rng.Intn(len(ps))]
	}
}

// explore runs a case with all orders of releases, at most max.
func explore(c *pcase, max int) (complete bool) {
	var prefix []int
	for n := 0; n < max; n++ {
		var width, choice []int
		runPipe(c, func(ps []*vsched.Gate) *vsched.Gate {
			sort.SliceStable(ps, func(i, j int) bool { return gateRank(ps[i]) < gateRank(ps[j]) })
			k := 0
			if len(choice) < len(prefix) {
				k = prefix[len(choice)]
				if k >= len(ps) {
					k = len(ps) - 1
				}
			}
			choice = append(choice, k)
			width = append(width, len(ps))
			return ps[k]
		}, nil)
		i := len(choice) - 1
		for i >= 0 && choice[i]+1 >= width[i] {
			i--
		}
		if i < 0 {
			return true
		}
		prefix = append(choice[:i:i], choice[i]+1)
	}
	return false
}

// sweep delays every statement in turn, until nothing else can go on.
func sweep(c *pcase) {
	if !R.instrumented {
		return
	}
	for how := 0; how < 2; how++ {
		order := func(ps []*vsched.Gate) *vsched.Gate {
			sort.SliceStable(ps, func(i, j int) bool {
				a, b := ps[i], ps[j]
				if a.Delay != b.Delay {
					return b.Delay
				}
				if (a.Label == "ext") != (b.Label == "ext") {
					return b.Label == "ext"
				}
				if (a.Label == "fetch") != (b.Label == "fetch") {
					return a.Label == "fetch"
				}
				if how == 1 || a.Key/1000 != b.Key/1000 {
					return a.Key < b.Key
				}
				return a.Key > b.Key
			})
			// the disturbance comes in the middle
			if len(ps) > 1 && c.Ext != "" && vsched.NEvents() > 14 {
				for _, g := range ps {
					if g.Label == "ext" {
						return g
					}
				}
			}
			return ps[0]
		}
		runPipe(c, order, nil)
		for _, p := range vsched.Points(2) {
			runPipe(c, order, []vsched.Point{p})
		}
	}
}

type pgen struct {
	Nodes []struct {
		K string `json:"k"`
		W string `json:"w"`
	} `json:"nodes"`
	NB      int    `json:"nb"`
	Trouble string `json:"trouble"`
	Runs    int    `json:"runs"`
}

func pipeSuite() {
	var gen []pgen
	b, err := os.ReadFile(R.casesFile)
	if err == nil {
		err = json.Unmarshal(b, &gen)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cases:", err)
		os.Exit(4)
	}
	calm := R.props == "C16" || R.props == "C17" || R.props == "C18"
	runs, per := 4, 2400
	if R.tier == "thorough" {
		runs, per = 60, 60000
	}
	for ci := 0; ci < len(gen); ci += 4 {
		ci := ci
		R.Unit(func() {
			for cj := ci; cj < len(gen) && cj < ci+4; cj++ {
				g := gen[cj]
				if calm && g.Trouble != "none" {
					continue
				}
				c := &pcase{NB: g.NB, Known: cj%2 == 0}
				for _, n := range g.Nodes {
					lim := 1
					if n.K == "lpar" {
						lim = 2
					}
					c.Nodes = append(c.Nodes, pnode{K: n.K, Lim: lim, New: cj%3 == 0,
						F: []pfilt{{R: n.W == "r" || n.W == "rz", Z: n.W == "z" || n.W == "rz"}}})
				}
				switch g.Trouble {
				case "cancel", "err":
					c.Ext = g.Trouble
				case "serr":
					c.SErr = 1 + cj%(g.NB+1)
				}
				max := runs
				if len(g.Nodes) > 3 && R.tier == "quick" {
					max = 1
				}
				if max < g.Runs {
					max = g.Runs
				}
				plain := true
				for _, n := range g.Nodes {
					if n.W != "r" {
						plain = false
					}
				}
				if plain && len(g.Nodes) == 2 {
					sweep(c)
				}
				if explore(c, max) {
					R.statsMap["explored_completely"]++
					continue
				}
				for k := 0; k < max; k++ {
					runPipe(c, pipeOrder(R.rng), nil)
				}
			}
		})
	}
	// many batches in progress at the same time
	nb := 150
	if R.tier == "thorough" {
		nb = 400
	}
	for _, ks := range []string{"par", "par own", "par ord", "par strict", "lpar", "lpar seq", "lpar par", "own par lpar"} {
		for _, known := range []bool{false, true} {
			c := &pcase{NB: nb, Free: true, Known: known}
			for i, k := range strings.Fields(ks) {
				c.Nodes = append(c.Nodes, pnode{K: k, Lim: nb * 2 / 3, F: []pfilt{{R: true, Z: i == 0}}})
			}
			R.Unit(func() {
				first := true
				runPipe(c, func(ps []*vsched.Gate) *vsched.Gate {
					if !first {
						vsched.Open()
						return nil
					}
					first = false
					return ps[len(ps)/2]
				}, nil)
			})
		}
	}
	pipeBigAll(calm)
	for k := 0; k < per; k++ {
		R.Unit(func() { pipeRandom(calm) })
		if k%8 == 0 {
			R.Unit(func() { pipesRandom(calm) })
		}
		if k < 24 {
			R.Unit(func() {
				var cs []*pcase
				for i := 0; i < 16; i++ {
					c := pipeCase(calm)
					c.Free = i%3 > 0 // fills the nodes
					cs = append(cs, c)
				}
				R.Slow(k, 0, 10+R.rng.Intn(50))
				runPipes(cs, pipeOrder(R.rng), nil)
			})
		}
	}
}

func pipeRandom(calm bool) {
	rng := R.rng
	c := pipeCase(calm)
	runs := 5
	for i := 0; i < 2; i++ {
		runPipe(c, pipeOrder(rng), nil)
	}
	if !R.instrumented {
		return
	}
	ps := vsched.Points(3)
	if R.tier == "thorough" {
		runs = 12
	}
	for i := 0; i < runs && len(ps) > 0; i++ {
		ds := []vsched.Point{ps[rng.Intn(len(ps))]}
		for rng.Intn(2) == 0 {
			ds = append(ds, ps[rng.Intn(len(ps))])
		}
		runPipe(c, pipeOrder(rng), ds)
	}
}

// pipesRandom runs several pipelines, concurrently and within each other.
func pipesRandom(calm bool) {
	rng := R.rng
	var cs []*pcase
	small := func() *pcase {
		c := pipeCase(calm)
		if len(c.Nodes) > 4 {
			c.Nodes = c.Nodes[:4]
		}
		if c.NB > 5 {
			c.NB = 5
		}
		nf := 0
		for _, n := range c.Nodes {
			nf += len(n.F)
		}
		c.Late = rng.Intn(2) == 0
		return c
	}
	var deep func(d int) *pcase
	deep = func(d int) *pcase {
		c := small()
		nf := 0
		for _, n := range c.Nodes {
			nf += len(n.F)
		}
		for ; nf > 0 && d > 0 && rng.Intn(2) == 0; d-- {
			c.Nest = append(c.Nest, pnest{1 + rng.Intn(nf), rng.Intn(3), deep(d - 1)})
		}
		return c
	}
	m, d := 1+rng.Intn(3), 2
	if rng.Intn(12) == 0 {
		m, d = 20, 0
	}
	for i := 0; i < m; i++ {
		cs = append(cs, deep(d))
	}
	if m > 1 && rng.Intn(4) == 0 { // all alike
		for i := range cs {
			c := *cs[0]
			c.Late = rng.Intn(2) == 0
			cs[i] = &c
		}
	}
	runPipes(cs, pipeOrder(rng), nil)
	if !R.instrumented {
		return
	}
	ps := vsched.Points(3)
	for i := 0; i < 2 && len(ps) > 0; i++ {
		ds := []vsched.Point{ps[rng.Intn(len(ps))]}
		for rng.Intn(2) == 0 {
			ds = append(ds, ps[rng.Intn(len(ps))])
		}
		runPipes(cs, pipeOrder(rng), ds)
	}
}

func pipeCase(calm bool) *pcase {
	rng := R.rng
	c := &pcase{NB: rng.Intn(6), Known: rng.Intn(2) == 0, Ctx: rng.Intn(4) == 0}
	kinds := []string{"ord", "strict", "seq", "par", "lpar"}
	if rng.Intn(8) == 0 || R.props == "C28" && rng.Intn(2) == 0 {
		kinds = append(kinds, "own")
	}
	if rng.Intn(3) == 0 { // fewer kinds: more merging
		rng.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
		kinds = kinds[:2]
	}
	nf := 0
	c.Once = rng.Intn(3) == 0
	c.Over = !calm && c.Ctx && rng.Intn(8) == 0
	m := 1 + rng.Intn(5)
	if rng.Intn(15) == 0 { // long runs, and long pipelines
		if rng.Intn(2) == 0 {
			c.NB, m = 10+rng.Intn(15), 1+rng.Intn(3)
		} else {
			c.NB, m = 1+rng.Intn(3), 6+rng.Intn(5)
		}
	}
	for i := 0; i < m; i++ {
		n := pnode{K: kinds[rng.Intn(len(kinds))], New: rng.Intn(2) == 0}
		if n.K == "lpar" {
			n.Lim = []int{2, 2, 3, 0, 1}[rng.Intn(5)]
		}
		if n.K == "own" {
			n.Own = []int{0, 0, 1, 2}[rng.Intn(4)]
		}
		w := 1
		if rng.Intn(3) == 0 {
			w = rng.Intn(4)
		}
		for j := 0; j < w; j++ {
			nf++
			n.F = append(n.F, pfilt{R: rng.Intn(3) > 0, Z: rng.Intn(4) == 0, Std: rng.Intn(4) == 0})
		}
		c.Nodes = append(c.Nodes, n)
	}
	if nf > 0 && rng.Intn(4) == 0 {
		c.Act = append(c.Act, pact{1 + rng.Intn(nf), rng.Intn(4), "drop"})
		for f := c.Act[0].F; rng.Intn(2) == 0; {
			c.Act = append(c.Act, pact{f, rng.Intn(c.NB + 1), "drop"})
		}
	}
	if c.Ctx {
		c.CtxK = rng.Intn(5)
	}
	if !calm || rng.Intn(6) == 0 {
		for i, m := 0, rng.Intn(4); i < m; i++ {
			a := []string{"cancel", "err", "err"}[rng.Intn(3)]
			switch rng.Intn(8) {
			case 0, 1:
				c.Ext = []string{"cancel", "ctx", "err"}[rng.Intn(3)]
			case 2:
				if c.NB > 0 {
					c.SErr = 1 + rng.Intn(c.NB+1)
				}
			case 3:
				j := rng.Intn(len(c.Nodes))
				if len(c.Nodes[j].F) > 0 {
					if rng.Intn(3) == 0 {
						c.Nodes[j].F[0].Std = false
						c.Nodes[j].F[0].At = a
					} else {
						c.Nodes[j].F[0].Fin = a
					}
				}
			default:
				if nf > 0 {
					q := rng.Intn(c.NB + 1)
					f := 1 + rng.Intn(nf)
					c.Act = append(c.Act, pact{f, q, a})
					if rng.Intn(2) == 0 {
						c.Act = append(c.Act, pact{f, q, "ask"})
					}
				}
			}
		}
	}
	return c
}

func init() { suites["pipe"] = pipeSuite }
