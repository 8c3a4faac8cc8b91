package main

import (
	"context"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"sort"
	"sync/atomic"

	"github.com/exascience/pargo/pipeline"
	"pargoverif/vsched"
)

// Suites filt and filtrace: chains of the predefined filters.

func init() {
	suites["filt"] = func() { filtSuite(false) }
	suites["filtrace"] = func() { filtSuite(true) }
}

type fstage struct {
	K    string `json:"k"`
	N    int    `json:"n"`
	Can  bool   `json:"can"`
	NK   string `json:"nk"`   // kind of its node
	New  bool   `json:"nw"`   // starts a new node, even if it is of the same kind
	O    []bool `json:"o"`    // outcomes of a predicate
	Init int    `json:"init"` // previous length of a slice
	How  int    `json:"how"`  // variation
}

type fcase struct {
	St    []fstage `json:"st"`
	Div   []int    `json:"div"`
	Known bool     `json:"known"`
	Typ   int      `json:"typ"`
	race  bool
}

func mkBatch(typ int, d []int, how int) interface{} {
	if len(d) == 0 && how%3 == 0 {
		return nil
	}
	switch typ {
	case 1:
		if len(d) == 0 && how%3 == 1 {
			return sislice(nil)
		}
		return append(sislice{}, d...)
	case 2:
		b := make([]byte, len(d))
		for i, x := range d {
			b[i] = byte(x)
		}
		return string(b)
	case 3:
		r := []interface{}{}
		for _, x := range d {
			r = append(r, x)
		}
		return r
	}
	if len(d) == 0 && how%3 == 1 {
		return []int(nil)
	}
	return append(make([]int, 0, len(d)+how%4), d...)
}

func batchNums(x interface{}) []int {
	r := []int{}
	v := reflect.ValueOf(x)
	if x == nil {
		return r
	}
	for i := 0; i < v.Len(); i++ {
		r = append(r, numOf(v.Index(i).Interface()))
	}
	return r
}

// fsource is a source with a fixed division into batches.
type fsource struct {
	c    *fcase
	next int
	num  int
	data interface{}
}

func (s *fsource) Err() error { return nil }
func (s *fsource) Prepare(context.Context) int {
	if !s.c.Known {
		return -1
	}
	n := 0
	for _, x := range s.c.Div {
		n += x
	}
	return n
}
func (s *fsource) Fetch(int) int {
	if !s.c.race {
		vsched.Park(&vsched.Gate{Label: "fetch"})
	}
	if s.next >= len(s.c.Div) {
		s.data = nil
		return 0
	}
	d := make([]int, s.c.Div[s.next])
	for i := range d {
		s.num++
		d[i] = s.num
	}
	s.next++
	s.data = mkBatch(s.c.Typ, d, s.next)
	vsched.Log(E{"e": "Fetched"})
	return len(d)
}
func (s *fsource) Data() interface{} { return s.data }

type frun struct {
	c       *fcase
	p       *pipeline.Pipeline
	results []func() E
	seen    [][]E // of the probes, in race builds: written without synchronization
}

func (r *frun) probe(i int, q int, data interface{}) {
	if r.c.race {
		r.seen[i][q] = E{"e": "In", "f": i + 1, "q": q, "d": batchNums(data), "ctx": false}
		return
	}
	vsched.LogPark(E{"e": "In", "f": i + 1, "q": q, "d": batchNums(data), "ctx": r.p.Context().Err() != nil},
		&vsched.Gate{Label: "recv", Key: (i+1)*1000 + q})
}

// filter makes the filter of stage i; nil if the stage is a node of its own.
func (r *frun) filter(i int) pipeline.Filter {
	st := r.c.St[i]
	typ := r.c.Typ
	apply := func(f func(q int, d []int) []int, size func(n int) int) pipeline.Filter {
		return func(_ *pipeline.Pipeline, _ pipeline.NodeKind, n *int) (pipeline.Receiver, pipeline.Finalizer) {
			*n = size(*n)
			return func(q int, data interface{}) interface{} { return mkBatch(typ, f(q, batchNums(data)), st.How+q) }, nil
		}
	}
	unknown := func(int) int { return -1 }
	switch st.K {
	case "count":
		res := new(int)
		*res = 7
		r.results = append(r.results, func() E { return E{"f": i + 1, "r": *res} })
		return pipeline.Count(res)
	case "slice":
		var init []int
		for k := 0; k < st.Init; k++ {
			init = append(init, 100+k)
		}
		var ty reflect.Type
		switch typ {
		case 1:
			ty = reflect.TypeOf(sislice(nil))
		case 3:
			ty = reflect.TypeOf([]interface{}(nil))
		default:
			ty = reflect.TypeOf([]int(nil))
		}
		ptr := reflect.New(ty)
		if st.Init > 0 {
			ptr.Elem().Set(reflect.ValueOf(mkBatch(typ, init, st.How)))
		}
		r.results = append(r.results, func() E { return E{"f": i + 1, "r": batchNums(ptr.Elem().Interface())} })
		return pipeline.Slice(ptr.Interface())
	case "every", "notevery", "some", "notany":
		res := new(bool)
		*res = st.How%2 == 0
		r.results = append(r.results, func() E { return E{"f": i + 1, "r": *res} })
		pred := func(data interface{}) bool {
			q := 1 << 20
			if b := batchNums(data); len(b) > 0 { // the number of the batch, from its first element
				q = 0
				for k, n := 0, 0; k < len(r.c.Div); k++ {
					if n += r.c.Div[k]; b[0] <= n {
						q = k
						break
					}
				}
			}
			r.probe(i, q, data)
			if q >= len(st.O) {
				q = len(st.O) - 1
			}
			return st.O[q]
		}
		switch st.K {
		case "every":
			return pipeline.Every(res, st.Can, pred)
		case "notevery":
			return pipeline.NotEvery(res, st.Can, pred)
		case "some":
			return pipeline.Some(res, st.Can, pred)
		}
		return pipeline.NotAny(res, st.Can, pred)
	case "bad":
		var x interface{}
		switch st.How % 7 {
		case 0:
			x = []int{}
		case 1:
			x = new(int)
		case 2:
			x = (*[]int)(nil)
		case 3:
			x = nil
		case 4:
			x = map[int]int{}
		case 5:
			x = new([4]int)
		case 6:
			x = "abc"
		}
		return pipeline.Slice(x)
	case "pass":
		return pipeline.Receive(func(q int, data interface{}) interface{} { r.probe(i, q, data); return data })
	case "odd":
		return apply(func(q int, d []int) (o []int) {
			for _, x := range d {
				if x%2 == 1 {
					o = append(o, x)
				}
			}
			return
		}, unknown)
	case "dup":
		return apply(func(q int, d []int) (o []int) {
			for _, x := range d {
				o = append(o, x, x)
			}
			return
		}, func(n int) int {
			if n > 0 && st.How%2 == 0 {
				return 2 * n
			}
			return -1
		})
	case "alt":
		return apply(func(q int, d []int) []int {
			if q%2 == 1 {
				return nil
			}
			return d
		}, unknown)
	case "drop":
		return apply(func(q int, d []int) []int { return nil }, func(n int) int {
			if st.How%2 == 0 {
				return 0
			}
			return -1
		})
	case "ident":
		return pipeline.Identity
	case "fin":
		return pipeline.Finalize(func() {})
	case "size":
		return func(_ *pipeline.Pipeline, _ pipeline.NodeKind, n *int) (rec pipeline.Receiver, _ pipeline.Finalizer) {
			if *n >= 0 && *n < 1<<30 {
				vsched.Log(E{"e": "Size", "f": i + 1, "n": *n})
			}
			if st.How%2 == 1 {
				rec = func(_ int, data interface{}) interface{} { return data }
			}
			return
		}
	}
	return nil
}

// nodes groups the stages; it returns the number of the node of every stage.
func (c *fcase) nodes() (node []int, kinds []string) {
	for i, st := range c.St {
		own := st.K == "limit" || st.K == "skip"
		if i == 0 || own || st.New || st.NK != c.St[i-1].NK || c.St[i-1].K == "limit" || c.St[i-1].K == "skip" {
			nk := st.NK
			if own {
				nk = "ord"
			}
			kinds = append(kinds, nk)
		}
		node = append(node, len(kinds))
	}
	return
}

func (c *fcase) cfg() E {
	node, kinds := c.nodes()
	ordn := []bool{}
	grp := make([]int, len(kinds))
	for i, k := range kinds {
		ordn = append(ordn, k == "ord" || k == "strict")
		if i > 0 {
			grp[i] = grp[i-1] + 1
			if seq := func(k string) bool { return k == "ord" || k == "seq" }; seq(k) && seq(kinds[i-1]) {
				grp[i] = grp[i-1]
			}
		}
	}
	fails := false
	st := []E{}
	for i, s := range c.St {
		init := []int{}
		for k := 0; k < s.Init; k++ {
			init = append(init, 100+k)
		}
		o := s.O
		if len(o) == 0 {
			o = []bool{true}
		}
		st = append(st, E{"k": s.K, "n": s.N, "can": s.Can, "node": node[i], "grp": grp[node[i]-1], "init": init, "o": o})
		if s.K == "bad" || s.K == "skip" && s.N < 0 {
			fails = true
		}
	}
	bat := [][]int{}
	num := 0
	for _, n := range c.Div {
		b := make([]int, n)
		for i := range b {
			num++
			b[i] = num
		}
		bat = append(bat, b)
	}
	return E{"bat": bat, "st": st, "ordn": ordn, "known": c.Known, "err": fails}
}

func runFilt(c *fcase, pick func(ps []*vsched.Gate) *vsched.Gate, delays []vsched.Point) {
	node, kinds := c.nodes()
	desc, _ := json.Marshal(c)
	R.Cur(string(desc), c.cfg())
	vsched.Begin(false, nil)
	if !c.race {
		vsched.WaitQuiet()
	}
	r := &frun{c: c, p: &pipeline.Pipeline{}}
	if c.race {
		for range c.St {
			r.seen = append(r.seen, make([]E, len(c.Div)))
		}
	}
	r.p.Source(&fsource{c: c})
	for k, kind := range kinds {
		var fs []pipeline.Filter
		var n pipeline.Node
		for i, st := range c.St {
			if node[i] != k+1 {
				continue
			}
			switch {
			case st.K == "limit":
				n = pipeline.Limit(st.N, st.Can)
			case st.K == "skip":
				n = pipeline.Skip(st.N)
			default:
				fs = append(fs, r.filter(i))
			}
		}
		if n == nil {
			switch kind {
			case "ord":
				n = pipeline.Ord(fs...)
			case "strict":
				n = pipeline.StrictOrd(fs...)
			case "seq":
				n = pipeline.Seq(fs...)
			case "par":
				n = pipeline.Par(fs...)
			default:
				n = pipeline.LimitedPar(3, fs...)
			}
		}
		r.p.Add(n)
	}
	done := make(chan bool, 1)
	var over int32
	ctx, cancel := context.WithCancel(context.Background())
	vsched.Mode(R.instrumented, delays)
	go func() {
		ok := false
		defer func() {
			if !ok {
				recover()
				vsched.Log(E{"e": "Panic"})
			}
			atomic.StoreInt32(&over, 1)
			done <- true
		}()
		r.p.RunWithContext(ctx, cancel)
		done := ctx.Err() != nil
		err := r.p.Err() != nil
		res := []E{}
		if !err {
			for _, f := range r.results {
				res = append(res, f())
			}
			for _, es := range r.seen {
				for _, e := range es {
					if e != nil {
						vsched.Log(e)
					}
				}
			}
		}
		vsched.Log(E{"e": "Ret", "ctx": done, "err": err, "res": res})
		ok = true
	}()
	ok := true
	if c.race {
		<-done
		if raced() {
			vsched.Log(E{"e": "Race"})
		}
	} else {
		ok = vsched.Drive(pick, func() bool { return atomic.LoadInt32(&over) == 1 }, nil)
		vsched.Open()
	}
	cancel()
	ev := vsched.Events()
	if !c.race { // what may be left is delayed statements
		vsched.WaitQuiet()
	}
	R.Trace(ev)
	if !ok {
		vsched.Open()
		R.Leak()
	}
}

// filtExplore runs a case with all orders of releases, at most max.
func filtExplore(c *fcase, max int) {
	var prefix []int
	for n := 0; n < max; n++ {
		var width, choice []int
		runFilt(c, func(ps []*vsched.Gate) *vsched.Gate {
			sort.SliceStable(ps, func(i, j int) bool { return gateRank(ps[i]) < gateRank(ps[j]) })
			k := 0
			if len(choice) < len(prefix) {
				k = min(prefix[len(choice)], len(ps)-1)
			}
			choice = append(choice, k)
			width = append(width, len(ps))
			return ps[k]
		}, nil)
		i := len(choice) - 1
		for i >= 0 && choice[i]+1 >= width[i] {
			i--
		}
		if i < 0 {
			R.statsMap["explored_completely"]++
			return
		}
		prefix = append(choice[:i:i], choice[i]+1)
	}
}

func filtSuite(race bool) {
	preds := R.props == "C24"
	if !race {
		filtBigAll(preds)
		var gen [2][]fcase
		b, err := os.ReadFile(R.casesFile)
		if err == nil {
			err = json.Unmarshal(b, &gen)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "cases:", err)
			os.Exit(4)
		}
		which, max := 0, 1
		if preds {
			which, max = 1, 12
		}
		if R.tier == "thorough" {
			max = max * 10
		}
		for ci := 0; ci < len(gen[which]); ci += 8 {
			ci := ci
			R.Unit(func() {
				for cj := ci; cj < ci+8 && cj < len(gen[which]); cj++ {
					c := gen[which][cj]
					if preds { // a probe behind
						c.St = append(c.St, fstage{K: "pass", NK: c.St[0].NK})
						filtExplore(&c, max)
						continue
					}
					c.Typ = []int{0, 0, 1, 3}[cj%4]
					for i := range c.St {
						c.St[i].How = R.rng.Intn(12)
						c.St[i].New = cj%2 == 0
					}
					for k := 0; k < max; k++ {
						runFilt(&c, pipeOrder(R.rng), nil)
					}
				}
			})
		}
	}
	n := 2500
	if R.tier == "thorough" {
		n = 60000
	}
	if race {
		n = n / 2
	}
	for k := 0; k < n; k++ {
		R.Unit(func() {
			if !race {
				R.Slow(k)
			}
			filtRandom(preds, race)
		})
	}
}

func filtRandom(preds, race bool) {
	rng := R.rng
	c := &fcase{Known: rng.Intn(2) == 0, Typ: []int{0, 0, 1, 2, 3}[rng.Intn(5)], race: race}
	total := 0
	for i, m := 0, rng.Intn(7); i < m; i++ {
		n := 1 + rng.Intn(4)
		if rng.Intn(8) == 0 {
			n = 1 + rng.Intn(20)
		}
		c.Div = append(c.Div, n)
		total += n
	}
	kinds := []string{"ord", "strict", "seq", "par", "lpar"}
	rng.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	kinds = kinds[:1+rng.Intn(5)]
	if race {
		kinds = []string{"par", "lpar", kinds[0]}
	}
	sk := []string{"limit", "limit", "skip", "skip", "count", "count", "slice", "slice", "pass", "pass", "odd", "dup", "alt", "drop", "ident", "fin", "size", "size"}
	pk := []string{"every", "notevery", "some", "notany"}
	canOne := rng.Intn(3) == 0 && !race
	usesPred := preds || rng.Intn(8) == 0
	pure := true // the predicates can tell the batches
	for i, m := 0, 1+rng.Intn(6); i < m; i++ {
		st := fstage{K: sk[rng.Intn(len(sk))], NK: kinds[rng.Intn(len(kinds))], New: rng.Intn(2) == 0, How: rng.Intn(100)}
		if i > 0 && rng.Intn(2) == 0 {
			st.NK = c.St[i-1].NK
		}
		if usesPred && rng.Intn(2) == 0 && pure {
			st.K = pk[rng.Intn(4)]
		} else if preds && rng.Intn(2) == 0 {
			st.K = []string{"pass", "count", "ident", "slice"}[rng.Intn(4)]
		}
		if usesPred && (st.K == "drop" || st.K == "alt" || st.K == "odd" || st.K == "skip" || st.K == "limit") {
			pure = false
		}
		if st.K == "slice" && c.Typ == 2 {
			st.K = "count"
		}
		if (st.K == "drop" || st.K == "alt") && rng.Intn(2) == 0 {
			st.K = "odd"
		}
		switch st.K {
		case "limit", "skip":
			st.N = rng.Intn(total + 3)
			if rng.Intn(12) == 0 && st.K == "limit" {
				st.N = -1 - rng.Intn(2)
			}
			if rng.Intn(40) == 0 && st.K == "skip" {
				st.N = -1 - rng.Intn(2)
			}
			st.Can = st.K == "limit" && canOne && rng.Intn(2) == 0
		case "slice":
			if rng.Intn(3) == 0 {
				st.Init = rng.Intn(4)
			}
			if rng.Intn(40) == 0 {
				st.K = "bad"
			}
		case "every", "notevery", "some", "notany":
			st.Can = rng.Intn(2) == 0 && !race
			p := rng.Intn(4)
			for range c.Div {
				st.O = append(st.O, rng.Intn(4) < p)
			}
		}
		c.St = append(c.St, st)
		if !race && rng.Intn(3) == 0 {
			c.St = append(c.St, fstage{K: "pass", NK: st.NK})
		}
	}
	if race {
		runtime.GOMAXPROCS(4)
		for i := 0; i < 4; i++ {
			runFilt(c, nil, nil)
		}
		return
	}
	for i := 0; i < 2; i++ {
		runFilt(c, pipeOrder(rng), nil)
	}
	ps := vsched.Points(3)
	m := 3
	if R.tier == "thorough" {
		m = 8
	}
	for i := 0; i < m && len(ps) > 0; i++ {
		ds := []vsched.Point{ps[rng.Intn(len(ps))]}
		for rng.Intn(2) == 0 {
			ds = append(ds, ps[rng.Intn(len(ps))])
		}
		runFilt(c, pipeOrder(rng), ds)
	}
}

var _ = rand.Int
