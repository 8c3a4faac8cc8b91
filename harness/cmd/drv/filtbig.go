package main

import (
	"context"
	"encoding/json"
	"runtime"
	"slices"
	"sync/atomic"
	"time"

	"github.com/exascience/pargo/pipeline"
	"pargoverif/vsched"
)

// Chains of predefined filters in pipelines with very many batches, or endless
// ones, that run freely. One event summarizes the results.

type bigFiltStage struct {
	K    string `json:"k"`
	N    int    `json:"n"`
	Can  bool   `json:"can"`
	NK   string `json:"nk"`
	New  bool   `json:"nw"`
	Mark int    `json:"mark"` // the predicate finds this element
	How  int    `json:"how"`
}

type bigFilt struct {
	St      []bigFiltStage `json:"st"`
	NB      int            `json:"nb"`
	Per     int            `json:"per"`
	Endless bool           `json:"endless"`
	Known   bool           `json:"known"`
	Typ     int            `json:"typ"`
}

const bigInf = 1000000000

type bfSource struct {
	c    *bigFilt
	next int
	data interface{}
	got  int64
}

func (s *bfSource) Err() error { return nil }
func (s *bfSource) Prepare(context.Context) int {
	if s.c.Known {
		return s.c.NB * s.c.Per
	}
	return -1
}
func (s *bfSource) Fetch(int) int {
	if s.next >= s.c.NB {
		s.data = nil
		return 0
	}
	d := make([]int, s.c.Per)
	for i := range d {
		d[i] = s.next*s.c.Per + i + 1
	}
	s.next++
	s.data = mkBatch(s.c.Typ, d, s.next)
	atomic.AddInt64(&s.got, 1)
	return len(d)
}
func (s *bfSource) Data() interface{} { return s.data }

// contents summarizes numbers: how many there are, the first one, and whether
// they are consecutive (ordered) or distinct (else).
func contents(d []int, ordered bool) (n, first, last int, ok bool) {
	n = len(d)
	if n == 0 {
		return 0, 0, 0, true
	}
	if !ordered {
		d = slices.Clone(d)
		slices.Sort(d)
	}
	ok = true
	for i := 1; i < n; i++ {
		if ordered && d[i] != d[i-1]+1 || d[i] <= d[i-1] {
			ok = false
		}
	}
	return n, d[0], d[n-1], ok
}

func runFiltBig(c *bigFilt, procs int) {
	if R.nobig {
		return
	}
	// as in fcase.nodes
	fc := &fcase{}
	for _, st := range c.St {
		fc.St = append(fc.St, fstage{K: st.K, NK: st.NK, New: st.New})
	}
	node, kinds := fc.nodes()
	ordn, grp := []bool{}, make([]int, len(kinds))
	for i, k := range kinds {
		ordn = append(ordn, k == "ord" || k == "strict")
		if i > 0 {
			grp[i] = grp[i-1] + 1
			if seq := func(k string) bool { return k == "ord" || k == "seq" }; seq(k) && seq(kinds[i-1]) {
				grp[i] = grp[i-1]
			}
		}
	}
	st := []E{}
	for i, s := range c.St {
		st = append(st, E{"k": s.K, "n": s.N, "can": s.Can, "node": node[i], "grp": grp[node[i]-1], "mark": s.Mark})
	}
	total := c.NB * c.Per
	if c.Endless {
		c.NB, total = bigInf, bigInf
	}
	desc, _ := json.Marshal(c)
	R.Cur(string(desc), E{"st": st, "ordn": ordn, "known": c.Known, "err": false, "bat": [][]int{}, "total": total, "per": c.Per, "endless": c.Endless})
	vsched.WaitQuiet()
	vsched.Begin(false, nil)
	vsched.Open()
	p := &pipeline.Pipeline{}
	src := &bfSource{c: c}
	p.Source(src)
	var results []func() E
	stage := func(i int) pipeline.Filter {
		s := c.St[i]
		out := E{"f": i + 1}
		switch s.K {
		case "count":
			res := new(int)
			*res = 5
			results = append(results, func() E { out["r"] = *res; return out })
			return pipeline.Count(res)
		case "slice":
			var a []int
			var b sislice
			var d []interface{}
			var ptr interface{} = &a
			if c.Typ == 1 {
				ptr = &b
			} else if c.Typ == 3 {
				ptr = &d
			}
			results = append(results, func() E {
				nums := a
				if c.Typ == 1 {
					nums = []int(b)
				} else if c.Typ == 3 {
					nums = batchNums(d)
				}
				out["r"], out["first"], out["last"], out["ok"] = contents(nums, ordn[node[i]-1])
				return out
			})
			return pipeline.Slice(ptr)
		case "every", "notevery", "some", "notany":
			res := new(bool)
			*res = s.How%2 == 0
			var calls, found int64
			inv := s.K == "every" || s.K == "notevery"
			pred := func(data interface{}) bool {
				atomic.AddInt64(&calls, 1)
				if slices.Contains(batchNums(data), s.Mark) {
					atomic.AddInt64(&found, 1)
					return !inv
				}
				return inv
			}
			results = append(results, func() E { out["r"], out["calls"], out["found"] = *res, int(calls), int(found); return out })
			switch s.K {
			case "every":
				return pipeline.Every(res, s.Can, pred)
			case "notevery":
				return pipeline.NotEvery(res, s.Can, pred)
			case "some":
				return pipeline.Some(res, s.Can, pred)
			}
			return pipeline.NotAny(res, s.Can, pred)
		case "pass":
			var n, bad, calls int64
			next := 0
			order := ordn[node[i]-1]
			results = append(results, func() E { out["r"], out["calls"], out["ok"] = int(n), int(calls), bad == 0; return out })
			return pipeline.Receive(func(q int, data interface{}) interface{} {
				d := batchNums(data)
				atomic.AddInt64(&n, int64(len(d)))
				atomic.AddInt64(&calls, 1)
				for _, x := range d {
					if (x-1)/c.Per != q {
						atomic.AddInt64(&bad, 1)
					}
				}
				if order {
					if q != next {
						atomic.AddInt64(&bad, 1)
					}
					next++
				}
				return data
			})
		case "ident":
			return pipeline.Identity
		}
		return func(_ *pipeline.Pipeline, _ pipeline.NodeKind, n *int) (rec pipeline.Receiver, _ pipeline.Finalizer) {
			size := *n // "size"
			results = append(results, func() E { out["r"] = max(-1, min(size, bigInf)); return out })
			return
		}
	}
	for k, kind := range kinds {
		var fs []pipeline.Filter
		var n pipeline.Node
		for i, st := range c.St {
			if node[i] != k+1 {
				continue
			}
			switch st.K {
			case "limit":
				n = pipeline.Limit(st.N, st.Can)
			case "skip":
				n = pipeline.Skip(st.N)
			default:
				fs = append(fs, stage(i))
			}
		}
		switch {
		case n != nil:
		case kind == "ord":
			n = pipeline.Ord(fs...)
		case kind == "strict":
			n = pipeline.StrictOrd(fs...)
		case kind == "seq":
			n = pipeline.Seq(fs...)
		case kind == "par":
			n = pipeline.Par(fs...)
		default:
			n = pipeline.LimitedPar(3, fs...)
		}
		p.Add(n)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	old := runtime.GOMAXPROCS(procs)
	done := make(chan string, 1)
	go func() {
		how := "Panic"
		defer func() {
			recover()
			done <- how
		}()
		p.RunWithContext(ctx, cancel)
		how = "Big"
	}()
	how := "Hang"
	select {
	case how = <-done:
	case <-time.After(100 * time.Second):
	}
	runtime.GOMAXPROCS(old)
	if how != "Big" {
		R.Trace([]E{{"e": how}})
		if how == "Hang" {
			R.BigHang()
		}
		R.Leak()
		return
	}
	isDone, failed := ctx.Err() != nil, p.Err() != nil
	res := []E{}
	for _, f := range results {
		res = append(res, f())
	}
	R.Trace([]E{{"e": "Big", "ctx": isDone, "err": failed, "got": int(src.got), "res": res}})
}

func filtBigAll(preds bool) {
	rep := 150
	if R.tier == "thorough" {
		rep = 1500
	}
	for k := 0; k < rep; k++ {
		R.Unit(func() {
			rng := R.rng
			c := &bigFilt{NB: []int{300, 520, 1100, 2100}[rng.Intn(4)], Per: []int{1, 1, 2, 3, 7, 50}[rng.Intn(6)], Known: rng.Intn(3) == 0, Typ: []int{0, 0, 1, 3}[rng.Intn(4)]}
			total := c.NB * c.Per
			all := []string{"ord", "seq", "par", "lpar", "strict"}
			kinds := []string{all[rng.Intn(5)], all[rng.Intn(5)]}
			pk := []string{"every", "notevery", "some", "notany"}
			sk := []string{"limit", "limit", "skip", "count", "slice", "pass", "ident", "size"}
			canOne := rng.Intn(3) == 0
			for i, m := 0, 1+rng.Intn(5); i < m; i++ {
				st := bigFiltStage{K: sk[rng.Intn(len(sk))], NK: kinds[rng.Intn(2)], New: rng.Intn(2) == 0, How: rng.Intn(2)}
				if preds && rng.Intn(2) == 0 || rng.Intn(10) == 0 {
					st.K = pk[rng.Intn(4)]
				}
				switch st.K {
				case "limit", "skip":
					st.N = []int{rng.Intn(total + 3), rng.Intn(total + 3), total - 1, 256 * c.Per, 1000, 1}[rng.Intn(6)]
					st.Can = st.K == "limit" && canOne && rng.Intn(2) == 0
				case "every", "notevery", "some", "notany":
					st.Mark = rng.Intn(total + total/3 + 1)
					st.Can = rng.Intn(3) == 0
				}
				c.St = append(c.St, st)
			}
			if rng.Intn(6) == 0 { // until the limit, or the predicate, ends it
				c.Endless, c.Known = true, false
				end := bigFiltStage{K: "limit", NK: kinds[0], N: []int{1, 100, 1000, 5000}[rng.Intn(4)], Can: true}
				if preds {
					end.K = pk[rng.Intn(4)]
					end.Mark, end.N = end.N, 0
				}
				c.St = append([]bigFiltStage{end}, c.St...)
				for i := range c.St {
					c.St[i].Can = i == 0
				}
			}
			runFiltBig(c, []int{1, 8, 8}[rng.Intn(3)])
		})
	}
}
