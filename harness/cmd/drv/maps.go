package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime"
	"slices"
	"sort"
	gosync "sync"
	"unsafe"

	"github.com/exascience/pargo/sync"
	"pargoverif/vsched"
)

// Suites map, mapiter: operations on keys of a parallel map, and iterations.

type mkey struct {
	id int
	h  uint64
}

func (k mkey) Hash() uint64 { return k.h }

type mop struct {
	K   string `json:"k"`
	Key int    `json:"key"` // from 1
	V   int    `json:"v"`   // planned value, 0: nil
}

type mcase struct {
	Splits  int         `json:"splits"`
	Hash    []uint64    `json:"hash"`
	Init    []int       `json:"init"` // per key: -1 absent, 0 nil, value
	Clients [][]mop     `json:"clients"`
	Iter    string      `json:"iter,omitempty"`
	Stop    map[int]int `json:"stop,omitempty"` // per key: 1 stop, 2 panic
	Procs   int         `json:"procs,omitempty"`
	Agg     []int       `json:"agg,omitempty"` // map-wide calls
	Own     bool        `json:"own,omitempty"` // splits are locked by users
}

func enc(v int) interface{} {
	switch {
	case v == 0:
		return nil
	case v%4 == 1: // cannot be compared
		return []int{v}
	case v%4 == 2:
		return map[string]int{"v": v}
	case v%4 == 3:
		return [2]interface{}{v, "v"}
	}
	return v
}
func dec(x interface{}) int {
	switch v := x.(type) {
	case nil:
		return 0
	case int:
		return v
	case []int:
		return v[0]
	case map[string]int:
		return v["v"]
	case [2]interface{}:
		return v[0].(int)
	}
	return -9
}

// info: kind for the specification, store flag, panic
func (o mop) info() (string, bool, bool) {
	switch o.K {
	case "direct":
		return "load", false, false
	case "locp":
		return "loc", false, true
	case "docp":
		return "doc", false, true
	case "modp":
		return "mod", true, true
	case "modd":
		return "mod", false, false
	case "mod":
		return "mod", true, false
	case "own":
		return "own", true, false
	case "ownd":
		return "own", false, false
	}
	return o.K, false, false
}

type mrun struct {
	c     *mcase
	m     *sync.Map
	keys  []mkey
	done  int
	opID  int
	opsMu gosync.Mutex
	split []int
	at    []*sync.Split
}

// all returns the entries of a split, per key.
func (r *mrun) all(m map[interface{}]interface{}) (all []int, extra bool) {
	all = make([]int, len(r.keys))
	for i, k := range r.keys {
		all[i] = -1
		if v, ok := m[k]; ok {
			all[i] = dec(v)
		}
	}
	for k := range m {
		if x, ok := k.(mkey); !ok || x.id < 1 || x.id > len(r.keys) || r.keys[x.id-1] != x {
			extra = true
		}
	}
	return
}

// own accesses a key's split under its lock.
func (r *mrun) own(o mop, id int, key mkey) {
	s := r.m.Split(key)
	if o.K == "rown" {
		s.RLock()
		defer s.RUnlock()
	} else {
		s.Lock()
		defer s.Unlock()
	}
	all, extra := r.all(s.Map)
	vsched.LogPark(E{"e": "OStart", "op": id, "all": all, "same": !extra && s == r.at[o.Key-1]}, &vsched.Gate{Label: "own", Key: id})
	all, _ = r.all(s.Map)
	vsched.Log(E{"e": "OEnd", "op": id, "all": all})
	switch o.K {
	case "own":
		s.Map[key] = enc(o.V)
	case "ownd":
		delete(s.Map, key)
	}
}

// aggCalls are the calls that invoke f on all splits of a map.
func aggCalls(m *sync.Map, f func(map[interface{}]interface{}) bool) []func() {
	fi := func(m map[interface{}]interface{}) int { f(m); return 1 }
	ff := func(m map[interface{}]interface{}) float64 { f(m); return 1 }
	fs := func(m map[interface{}]interface{}) string { f(m); return "1" }
	fx := func(m map[interface{}]interface{}) interface{} { f(m); return 1 }
	ji := func(x, y int) int { return x + y }
	jf := func(x, y float64) float64 { return x + y }
	js := func(x, y string) string { return x + y }
	jx := func(x, y interface{}) interface{} { return 1 }
	return []func(){
		func() { m.And(f) }, func() { m.ParallelAnd(f) }, func() { m.SpeculativeAnd(f) },
		func() { m.Or(func(m map[interface{}]interface{}) bool { return !f(m) }) },
		func() { m.ParallelOr(func(m map[interface{}]interface{}) bool { return !f(m) }) },
		func() { m.SpeculativeOr(func(m map[interface{}]interface{}) bool { return !f(m) }) },
		func() { m.Reduce(fx, jx) }, func() { m.ParallelReduce(fx, jx) },
		func() {
			m.SpeculativeReduce(func(m map[interface{}]interface{}) (interface{}, bool) { f(m); return 1, false },
				func(x, y interface{}) (interface{}, bool) { return 1, false })
		},
		func() { m.ReduceInt(fi, ji) }, func() { m.ParallelReduceInt(fi, ji) },
		func() {
			m.SpeculativeReduceInt(func(m map[interface{}]interface{}) (int, bool) { f(m); return 1, false },
				func(x, y int) (int, bool) { return 1, false })
		},
		func() { m.ReduceFloat64(ff, jf) }, func() { m.ParallelReduceFloat64(ff, jf) },
		func() {
			m.SpeculativeReduceFloat64(func(m map[interface{}]interface{}) (float64, bool) { f(m); return 1, false },
				func(x, y float64) (float64, bool) { return 1, false })
		},
		func() { m.ReduceString(fs, js) }, func() { m.ParallelReduceString(fs, js) },
		func() {
			m.SpeculativeReduceString(func(m map[interface{}]interface{}) (string, bool) { f(m); return "1", false },
				func(x, y string) (string, bool) { return "", false })
		},
		func() { m.ReduceIntSum(fi) }, func() { m.ReduceIntProduct(fi) }, func() { m.ParallelReduceIntSum(fi) }, func() { m.ParallelReduceIntProduct(fi) },
		func() { m.ReduceFloat64Sum(ff) }, func() { m.ReduceFloat64Product(ff) }, func() { m.ParallelReduceFloat64Sum(ff) }, func() { m.ParallelReduceFloat64Product(ff) },
		func() { m.ReduceStringSum(fs) }, func() { m.ParallelReduceStringSum(fs) },
	}
}

// aggregate makes a map-wide call.
func (r *mrun) aggregate(kind int) {
	defer func() { recover() }()
	f := func(m map[interface{}]interface{}) bool {
		all, extra := r.all(m)
		q := 0
		for i, v := range all {
			if v >= 0 {
				q = r.split[i]
				extra = extra || reflect.ValueOf(r.at[i].Map).Pointer() != reflect.ValueOf(m).Pointer()
			}
		}
		for i := 0; i < len(r.at) && q == 0; i++ {
			if reflect.ValueOf(r.at[i].Map).Pointer() == reflect.ValueOf(m).Pointer() {
				q = r.split[i]
			}
		}
		if q == 0 { // not known which one
			return true
		}
		id := r.nextID()
		vsched.LogPark(E{"e": "AStart", "op": id, "q": q, "all": all, "same": !extra}, &vsched.Gate{Label: "agg", Key: id})
		all, _ = r.all(m)
		vsched.Log(E{"e": "AEnd", "op": id, "all": all})
		return true
	}
	calls := aggCalls(r.m, f)
	calls[kind%len(calls)]()
}

func (r *mrun) nextID() int {
	r.opsMu.Lock()
	defer r.opsMu.Unlock()
	r.opID++
	return r.opID
}

// exec executes one operation and logs its call and return.
func (r *mrun) exec(o mop) {
	id := r.nextID()
	k, st, p := o.info()
	key := r.keys[o.Key-1]
	vsched.Log(E{"e": "Call", "op": id, "k": k, "key": o.Key, "v": o.V, "st": st, "p": p})
	cb := func(v interface{}, ok bool) {
		vsched.LogPark(E{"e": "CStart", "op": id, "v": dec(v), "ok": ok}, &vsched.Gate{Label: "cb", Key: id})
		vsched.Log(E{"e": "CEnd", "op": id})
		if p {
			panic("planned")
		}
	}
	var v interface{}
	var ok bool
	defer func() {
		e := E{"e": "Ret", "op": id, "v": dec(v), "ok": ok, "p": false}
		if recover() != nil {
			e["p"] = true
		}
		vsched.Log(e)
	}()
	switch o.K {
	case "own", "ownd", "rown":
		r.own(o, id, key)
		if o.K != "rown" {
			v, ok = enc(o.V), st
		}
	case "load":
		v, ok = r.m.Load(key)
	case "direct":
		s := r.m.Split(key)
		s.Lock()
		v, ok = s.Map[key]
		s.Unlock()
	case "del":
		r.m.Delete(key)
	case "ls":
		v, ok = r.m.LoadOrStore(key, enc(o.V))
	case "ds":
		v, ok = r.m.DeleteOrStore(key, enc(o.V))
	case "loc", "locp":
		v, ok = r.m.LoadOrCompute(key, func() interface{} { cb(nil, false); return enc(o.V) })
	case "doc", "docp":
		v, ok = r.m.DeleteOrCompute(key, func() interface{} { cb(nil, false); return enc(o.V) })
	case "mod", "modd", "modp":
		v, ok = r.m.Modify(key, func(v interface{}, ok bool) (interface{}, bool) { cb(v, ok); return enc(o.V), st })
	default:
		panic(o.K)
	}
}

func (r *mrun) iterate() {
	ids := map[mkey]int{}
	for i, k := range r.keys {
		ids[k] = i + 1
	}
	visit := func(key, value interface{}) bool {
		k, ok := key.(mkey)
		if !ok {
			k = mkey{id: -1}
		}
		id := ids[k]
		vsched.LogPark(E{"e": "VStart", "key": id, "v": dec(value)}, &vsched.Gate{Label: "visit", Key: id})
		s := r.c.Stop[id]
		if r.c.Iter == "prange" && s == 1 {
			s = 0
		}
		vsched.Log(E{"e": "VEnd", "key": id, "go": s != 1, "p": s == 2})
		if s == 2 {
			panic("planned")
		}
		return s != 1
	}
	vsched.Log(E{"e": "ICall", "k": r.c.Iter})
	defer func() {
		vsched.Log(E{"e": "IRet", "p": recover() != nil})
	}()
	switch r.c.Iter {
	case "range":
		r.m.Range(visit)
	case "prange":
		r.m.ParallelRange(func(key, value interface{}) { visit(key, value) })
	case "srange":
		r.m.SpeculativeRange(visit)
	}
}

// newMap makes the map of a case; the ids of the splits are in their order in
// memory, and ord tells whether this is also the order of hash values.
func (r *mrun) newMap() (split []int, ord bool) {
	r.m = sync.NewMap(r.c.Splits)
	ptr := map[uintptr]bool{}
	var ps []uintptr
	at := make([]uintptr, len(r.c.Hash))
	for i, h := range r.c.Hash {
		k := mkey{i + 1, h}
		r.keys = append(r.keys, k)
		r.at = append(r.at, r.m.Split(k))
		at[i] = uintptr(unsafe.Pointer(r.at[i]))
		if !ptr[at[i]] {
			ptr[at[i]] = true
			ps = append(ps, at[i])
		}
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i] < ps[j] })
	for i := range at {
		split = append(split, sort.Search(len(ps), func(j int) bool { return ps[j] >= at[i] })+1)
	}
	ord = r.c.Splits > 0
	if ord {
		n := uint64(r.c.Splits)
		for i := range at {
			for j := range at {
				if (at[i] < at[j]) != (r.c.Hash[i]%n < r.c.Hash[j]%n) {
					ord = false
				}
			}
		}
	}
	return
}

func runMap(c *mcase, order func(ps []*vsched.Gate) *vsched.Gate, delays []vsched.Point) {
	r := &mrun{c: c}
	desc, _ := json.Marshal(c)
	R.Cur(string(desc), E{"keys": len(c.Hash), "split": []int{}, "ord": false, "full": false})
	base := vsched.WaitQuiet()
	vsched.Begin(false, nil)
	if c.Procs > 0 {
		old := runtime.GOMAXPROCS(c.Procs)
		defer runtime.GOMAXPROCS(old)
	}
	split, ord := r.newMap()
	distinct := map[int]bool{}
	for _, x := range split {
		distinct[x] = true
	}
	cfg := E{"keys": len(c.Hash), "split": split, "ord": ord, "full": len(distinct) == c.Splits}
	r.split = split
	if c.Own || len(c.Agg) > 0 {
		cls := []int{}
		for _, h := range c.Hash {
			cls = append(cls, slices.Index(c.Hash, h))
		}
		size := c.Splits
		if size <= 0 {
			size = runtime.GOMAXPROCS(0)
		}
		cfg["own"], cfg["agg"], cfg["size"], cfg["cls"] = c.Own, len(c.Agg) > 0, size, cls
	}
	R.Cur(string(desc), cfg)
	fail := func() {
		vsched.Log(E{"e": "Hang"})
		R.Trace(vsched.Events())
		vsched.Open()
		R.Leak()
	}
	phase := func(f func()) bool {
		done := false
		go func() { f(); done = true }()
		for {
			vsched.WaitQuiet()
			ps := vsched.Parked()
			if len(ps) == 0 {
				if !done && !vsched.Confirm(func() bool { return !done && len(vsched.Parked()) == 0 }) {
					continue
				}
				return done
			}
			vsched.Release(ps[0])
		}
	}
	if !phase(func() {
		for i, v := range c.Init {
			if v >= 0 {
				r.exec(mop{"ls", i + 1, v})
			}
		}
	}) {
		fail()
		return
	}
	vsched.Mode(R.instrumented, delays)
	n := len(c.Clients)
	var mu gosync.Mutex
	fin := func() { mu.Lock(); r.done++; mu.Unlock() }
	for i, ops := range c.Clients {
		go func() {
			for _, o := range ops {
				vsched.Park(&vsched.Gate{Label: "client", Key: i})
				r.exec(o)
			}
			fin()
		}()
	}
	for _, k := range c.Agg {
		n++
		go func() {
			vsched.Park(&vsched.Gate{Label: "agg"})
			r.aggregate(k)
			fin()
		}()
	}
	if c.Iter != "" {
		n++
		go func() {
			vsched.Park(&vsched.Gate{Label: "iter"})
			r.iterate()
			fin()
		}()
	}
	if !vsched.Drive(order, func() bool { return r.done == n }, nil) {
		R.Trace(vsched.Events())
		vsched.Open()
		R.Leak()
		return
	}
	r.c = c
	if !phase(func() {
		for i := range c.Hash {
			r.exec(mop{"load", i + 1, 0})
			r.exec(mop{"direct", i + 1, 0})
			r.exec(mop{"load", i + 1, 0})
		}
		if c.Own {
			n := 0
			r.m.And(func(map[interface{}]interface{}) bool { n++; return true })
			vsched.Log(E{"e": "Splits", "n": n})
		}
	}) {
		fail()
		return
	}
	if vsched.Leaked(base) {
		vsched.Log(E{"e": "Leak"})
		R.Trace(vsched.Events())
		R.Leak()
		return
	}
	R.Trace(vsched.Events())
}

var mapKinds = []string{"load", "direct", "ls", "loc", "locp", "del", "ds", "doc", "docp", "mod", "modd", "modp"}

func randHash(rng *rand.Rand, splits int) uint64 {
	switch rng.Intn(5) {
	case 0:
		return ^uint64(0) - uint64(rng.Intn(4))
	case 1:
		return 1<<63 + uint64(rng.Intn(4))
	case 2:
		return rng.Uint64()
	}
	return uint64(rng.Intn(6))
}

var mapSplits = []int{1, 1, 2, 3, 5, 0, -1, 64}

func init() {
	suites["map"] = mapSuite
	suites["mapiter"] = mapIterSuite
	suites["mapsplit"] = mapSplitSuite
}

// inOrder prefers the oldest gates that are not delays; the delayed ones are
// released when nothing else is left.
func inOrder(ps []*vsched.Gate) *vsched.Gate {
	for _, g := range ps {
		if !g.Delay && g.Label != "client" {
			return g
		}
	}
	var best *vsched.Gate
	for _, g := range ps {
		if !g.Delay && (best == nil || g.Key < best.Key) {
			best = g
		}
	}
	if best != nil {
		return best
	}
	return ps[0]
}

// holdCb lets the clients go first, then ends user functions.
func holdCb(ps []*vsched.Gate) *vsched.Gate {
	var best *vsched.Gate
	for _, g := range ps {
		if g.Label == "client" && (best == nil || g.Key < best.Key) {
			best = g
		}
	}
	if best != nil {
		return best
	}
	return inOrder(ps)
}

type mapGen struct {
	Init int      `json:"init"`
	Ops  []string `json:"ops"`
}

func mapSuite() {
	b, err := os.ReadFile(R.casesFile)
	var gen []mapGen
	if err == nil {
		err = json.Unmarshal(b, &gen)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cases:", err)
		os.Exit(4)
	}
	mapBigAll("ops")
	// one operation per client, every single delay
	for gi, g := range gen {
		if len(g.Ops) > 2 && R.tier == "quick" && (gi*7919+int(R.seed))%12 != 0 {
			continue
		}
		R.Unit(func() {
			rng := R.rng
			c := &mcase{Splits: mapSplits[rng.Intn(len(mapSplits))], Init: []int{-1}}
			c.Hash = []uint64{randHash(rng, c.Splits)}
			switch g.Init {
			case 1:
				c.Init[0] = 0
			case 2:
				c.Init[0] = 50
			}
			for i, k := range g.Ops {
				o := mop{k, 1, 10 + i}
				if rng.Intn(4) == 0 {
					o.V = 0
				}
				c.Clients = append(c.Clients, []mop{o})
			}
			runMap(c, inOrder, nil)
			runMap(c, holdCb, nil)
			ps := vsched.Points(2)
			if len(g.Ops) > 2 && R.tier == "quick" {
				rng.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
				if len(ps) > 8 {
					ps = ps[:8]
				}
			}
			for _, p := range ps {
				runMap(c, inOrder, []vsched.Point{p})
				if len(g.Ops) > 2 {
					runMap(c, randOrder(rng, true), []vsched.Point{p, ps[rng.Intn(len(ps))]})
				}
			}
		})
	}
	// random programs
	n := 600
	if R.tier == "thorough" {
		n = 12000
	}
	for i := 0; i < n; i++ {
		R.Unit(func() {
			rng := R.rng
			c := randMapCase(rng, 2+rng.Intn(2), 3)
			R.Slow(i)
			runMap(c, randOrder(rng, false), nil)
			mapDelays(c, 6)
		})
	}
}

func mapDelays(c *mcase, runs int) {
	rng := R.rng
	ps := vsched.Points(6)
	for i := 0; i < runs && len(ps) > 0; i++ {
		ds := []vsched.Point{ps[rng.Intn(len(ps))]}
		for rng.Intn(2) == 0 {
			ds = append(ds, ps[rng.Intn(len(ps))])
		}
		runMap(c, randOrder(rng, rng.Intn(3) > 0), ds)
	}
}

func randMapCase(rng *rand.Rand, clients, ops int) *mcase {
	c := &mcase{Splits: mapSplits[rng.Intn(len(mapSplits))]}
	keys := 1 + rng.Intn(3)
	for i := 0; i < keys; i++ {
		c.Hash = append(c.Hash, randHash(rng, c.Splits))
		c.Init = append(c.Init, []int{-1, -1, 0, 50 + i}[rng.Intn(4)])
	}
	v := 10
	for i := 0; i < clients; i++ {
		var l []mop
		for j := 0; j < 1+rng.Intn(ops); j++ {
			o := mop{mapKinds[rng.Intn(len(mapKinds))], 1 + rng.Intn(keys), v}
			v++
			if rng.Intn(5) == 0 {
				o.V = 0
			}
			l = append(l, o)
		}
		c.Clients = append(c.Clients, l)
	}
	return c
}

var iterKinds = []string{"range", "prange", "srange"}

func mapIterSuite() {
	n := 1500
	if R.tier == "thorough" {
		n = 30000
	}
	mapBigAll(iterKinds...)
	simple := []string{"load", "direct", "ls", "loc", "del", "ds", "doc", "mod", "modd"}
	for i := 0; i < n; i++ {
		R.Unit(func() {
			rng := R.rng
			c := &mcase{Splits: []int{1, 2, 3, 4, 5, 7, 0}[rng.Intn(7)], Iter: iterKinds[rng.Intn(3)], Stop: map[int]int{}}
			keys := 1 + rng.Intn(5)
			many := rng.Intn(25) == 0
			if many {
				keys = 30 + rng.Intn(40)
				c.Splits = []int{3, 12, 33}[rng.Intn(3)]
			}
			for i := 0; i < keys; i++ {
				h := uint64(rng.Intn(8))
				if many {
					h = uint64(rng.Intn(1000))
				}
				if rng.Intn(6) == 0 {
					h = randHash(rng, c.Splits)
				}
				c.Hash = append(c.Hash, h)
				c.Init = append(c.Init, []int{-1, 0, 50 + i, 50 + i, 50 + i}[rng.Intn(5)])
			}
			switch rng.Intn(3) {
			case 0:
				c.Stop[1+rng.Intn(keys)] = 1
			case 1:
				if rng.Intn(2) == 0 {
					c.Stop[1+rng.Intn(keys)] = 1
				}
				if rng.Intn(3) == 0 {
					c.Stop[1+rng.Intn(keys)] = 2
				}
			}
			v := 10
			for i := rng.Intn(3); i > 0 && !many; i-- {
				var l []mop
				for j := 0; j < 1+rng.Intn(3); j++ {
					l = append(l, mop{simple[rng.Intn(len(simple))], 1 + rng.Intn(keys), v})
					v++
				}
				c.Clients = append(c.Clients, l)
			}
			if rng.Intn(8) == 0 {
				c.Procs = 4
			}
			R.Slow(i)
			runMap(c, randOrder(rng, false), nil)
			mapDelays(c, 5)
		})
	}
}

var mapSplitSizes = []int{1, 1, 1, 2, 2, 2, 2, 3, 3, 5, 5, 0, 0, -1, 16}

// mapSplitSuite has users lock splits and access their entries, and map-wide
// calls, at the same time as operations and iterations.
func mapSplitSuite() {
	n := 2500
	if R.tier == "thorough" {
		n = 40000
	}
	kinds := append([]string{}, mapKinds...)
	if R.props == "C27" {
		mapBigAll("ops", "range", "prange", "srange")
	}
	// all numbers of splits
	for n := -3; n <= 1100 && R.props == "C27"; n++ {
		if n > 140 && n%32 > 2 && n%100 > 1 {
			continue
		}
		R.Unit(func() {
			c := &mcase{Splits: n, Own: true, Hash: []uint64{0, uint64(n), uint64(n) + 1, ^uint64(0), uint64(R.rng.Intn(2000)), 0},
				Init: []int{-1, -1, -1, -1, -1, -1}, Procs: R.rng.Intn(9)}
			runMap(c, randOrder(R.rng, false), nil)
		})
	}
	for i := 0; i < n; i++ {
		R.Unit(func() {
			rng := R.rng
			c := &mcase{Splits: mapSplitSizes[rng.Intn(len(mapSplitSizes))], Own: R.props != "C15"}
			keys := 1 + rng.Intn(4)
			for i := 0; i < keys; i++ {
				h := uint64(rng.Intn(4))
				if rng.Intn(4) == 0 {
					h = randHash(rng, c.Splits)
				}
				c.Hash = append(c.Hash, h)
				c.Init = append(c.Init, []int{-1, 0, 50 + i, 50 + i}[rng.Intn(4)])
			}
			if rng.Intn(4) == 0 {
				c.Procs = 1 + rng.Intn(6)
			}
			clients := 2 + rng.Intn(2)
			switch rng.Intn(3) {
			case 0:
				c.Iter = iterKinds[rng.Intn(3)]
				if rng.Intn(4) == 0 {
					c.Stop = map[int]int{1 + rng.Intn(keys): 1}
				}
				clients--
			case 1:
				c.Agg = []int{rng.Intn(1000)}
				if clients = rng.Intn(3); clients == 0 && !c.Own {
					c.Agg = append(c.Agg, rng.Intn(1000))
				}
			}
			if !c.Own && len(c.Agg) == 0 {
				c.Iter, c.Agg = "", []int{rng.Intn(1000)}
			}
			v := 10
			for i := 0; i < clients || i == 0; i++ {
				var l []mop
				for j := 0; j < 1+rng.Intn(3); j++ {
					k := kinds[rng.Intn(len(kinds))]
					if c.Own && (i == 0 || rng.Intn(3) == 0) {
						k = []string{"own", "own", "ownd", "rown"}[rng.Intn(4)]
					}
					o := mop{k, 1 + rng.Intn(keys), v}
					v++
					if rng.Intn(5) == 0 {
						o.V = 0
					}
					l = append(l, o)
				}
				c.Clients = append(c.Clients, l)
			}
			R.Slow(i)
			runMap(c, randOrder(rng, false), nil)
			runMap(c, holdCb, nil)
			mapDelays(c, 4)
		})
	}
}
