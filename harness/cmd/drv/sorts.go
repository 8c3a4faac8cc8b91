package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"slices"
	gosort "sort"
	"strconv"
	"sync"
	"sync/atomic"

	psort "github.com/exascience/pargo/sort"
	"pargoverif/vsched"
)

// Suite sort: the sorting functions on predefined slice types and on a
// collection whose methods can be held at every invocation.

const sortGrain, stableGrain, isCutoff = 0x500, 0x3000, 10

type sop struct {
	id         int
	m          string
	c, i, j, n int
	sc         int
}

func (o *sop) ev(e string) E {
	return E{"e": e, "id": o.id, "m": o.m, "c": o.c, "i": o.i, "j": o.j, "n": o.n, "sc": o.sc}
}

// elems returns the ranges of elements that o uses.
func (o *sop) elems() [][3]int {
	switch o.m {
	case "less", "swap":
		return [][3]int{{o.c, o.i, o.i + 1}, {o.c, o.j, o.j + 1}}
	case "seq":
		return [][3]int{{o.c, o.i, o.j}}
	case "asg":
		return [][3]int{{o.c, o.i, o.i + o.n}, {o.sc, o.j, o.j + o.n}}
	}
	return nil
}

func (o *sop) meets(p *sop) bool {
	for _, a := range o.elems() {
		for _, b := range p.elems() {
			if a[0] == b[0] && a[1] < b[2] && b[1] < a[2] {
				return true
			}
		}
	}
	return false
}

type shold struct {
	M string `json:"m"`
	K int    `json:"k"` // held at the Kth invocation of M, from 1
}

// srun is a call under test.
type srun struct {
	mu     sync.Mutex
	counts map[string]int
	hold   map[shold]bool
	watch  int32 // operations are held, or the call has returned
	held   []*sop
	ret    bool
	ids    int
	logged int
	colls  int
}

// do performs an invocation of a method.
func (r *srun) do(o sop, work func()) {
	r.mu.Lock()
	r.counts[o.m]++
	k := shold{o.m, r.counts[o.m]}
	if r.hold[k] || r.ret {
		r.ids++
		o.id = r.ids
		r.held = append(r.held, &o)
		r.mu.Unlock()
		if r.ret {
			vsched.Log(o.ev("Begin"))
		} else {
			vsched.LogPark(o.ev("Begin"), &vsched.Gate{Label: o.m, Key: o.id})
		}
		work()
		r.mu.Lock()
		for i, p := range r.held {
			if p == &o {
				r.held = append(r.held[:i:i], r.held[i+1:]...)
				break
			}
		}
		r.mu.Unlock()
		vsched.Log(o.ev("End"))
		return
	}
	if len(r.held) > 0 && r.logged < 60 {
		for _, p := range r.held {
			if o.meets(p) {
				if o.m != "less" {
					r.logged++
				} else if p.m == "less" { // never in conflict: a few will do
					r.logged += 3
				}
				vsched.Log(o.ev("Touch"))
				break
			}
		}
	}
	r.mu.Unlock()
	work()
}

// scoll is a collection of elements with keys and numbers.
type scoll struct {
	r    *srun
	c    int
	key  []int
	elem []int
}

func newColl(r *srun, key []int) *scoll {
	c := &scoll{r: r, c: r.colls, key: append([]int(nil), key...), elem: make([]int, len(key))}
	r.colls++
	for i := range c.elem {
		c.elem[i] = i
	}
	return c
}

func (c *scoll) Len() (n int) {
	c.r.do(sop{m: "len", c: c.c}, func() { n = len(c.key) })
	return
}

func (c *scoll) Less(i, j int) (l bool) {
	c.r.do(sop{m: "less", c: c.c, i: i, j: j}, func() { l = c.key[i] < c.key[j] })
	return
}

func (c *scoll) Swap(i, j int) {
	c.r.do(sop{m: "swap", c: c.c, i: i, j: j}, func() {
		c.key[i], c.key[j] = c.key[j], c.key[i]
		c.elem[i], c.elem[j] = c.elem[j], c.elem[i]
	})
}

type byKey struct{ key, elem []int }

func (b byKey) Len() int           { return len(b.key) }
func (b byKey) Less(i, j int) bool { return b.key[i] < b.key[j] }
func (b byKey) Swap(i, j int) {
	b.key[i], b.key[j] = b.key[j], b.key[i]
	b.elem[i], b.elem[j] = b.elem[j], b.elem[i]
}

func (c *scoll) SequentialSort(i, j int) {
	c.r.do(sop{m: "seq", c: c.c, i: i, j: j}, func() { gosort.Stable(byKey{c.key[i:j], c.elem[i:j]}) })
}

func (c *scoll) NewTemp() (t psort.StableSorter) {
	c.r.do(sop{m: "new", c: c.c}, func() {
		k := make([]int, len(c.key))
		e := make([]int, len(c.key))
		for i := range k { // nonsense
			k[i], e[i] = -7, -1
		}
		c.r.mu.Lock()
		t = &scoll{r: c.r, c: c.r.colls, key: k, elem: e}
		c.r.colls++
		c.r.mu.Unlock()
	})
	return
}

func (c *scoll) Assign(source psort.StableSorter) (f func(i, j, n int)) {
	s := source.(*scoll)
	c.r.do(sop{m: "mk", c: c.c, sc: s.c}, func() {
		f = func(i, j, n int) {
			c.r.do(sop{m: "asg", c: c.c, sc: s.c, i: i, j: j, n: n}, func() {
				copy(c.key[i:i+n], s.key[j:j+n])
				copy(c.elem[i:i+n], s.elem[j:j+n])
			})
		}
	})
	return
}

// perm returns, for every element of after, the number of the one of before
// that it stems from: equal elements are matched in order. -1: there is none.
func perm[T comparable](before, after []T) []int {
	pos := map[T][]int{}
	for i, x := range before {
		pos[x] = append(pos[x], i)
	}
	w := make([]int, len(after))
	for i, x := range after {
		if l := pos[x]; len(l) > 0 {
			w[i], pos[x] = l[0], l[1:]
		} else {
			w[i] = -1
		}
	}
	return w
}

func descents(n int, less func(i, j int) bool) []int {
	d := []int{}
	for i := 1; i < n && len(d) < 5; i++ {
		if less(i, i-1) {
			d = append(d, i)
		}
	}
	return d
}

type scase struct {
	Fn    string  `json:"fn"` // sort, stable, is
	Ty    string  `json:"ty"` // coll, ints, floats, strings
	N     int     `json:"n"`
	Shape string  `json:"shape"`
	Hold  []shold `json:"hold,omitempty"`
	Wide  bool    `json:"wide,omitempty"` // ints over the whole range, strings of all kinds
}

// sortShapes are the shapes of data, in ranks of keys.
var sortShapes = map[string]func(rng *rand.Rand, n int) []int{
	"random": func(rng *rand.Rand, n int) []int { return gen(n, func(i int) int { return rng.Intn(4*n + 1) }) },
	"few": func(rng *rand.Rand, n int) []int {
		k := 1 + rng.Intn(5)
		return gen(n, func(i int) int { return rng.Intn(k) })
	},
	"sorted":  func(rng *rand.Rand, n int) []int { return gen(n, func(i int) int { return i }) },
	"reverse": func(rng *rand.Rand, n int) []int { return gen(n, func(i int) int { return n - i }) },
	"saw": func(rng *rand.Rand, n int) []int {
		k := 1 + rng.Intn(n+1)
		return gen(n, func(i int) int { return i % k })
	},
	"revsaw": func(rng *rand.Rand, n int) []int {
		k := 1 + rng.Intn(n+1)
		return gen(n, func(i int) int { return k - i%k })
	},
	"organ":  func(rng *rand.Rand, n int) []int { return gen(n, func(i int) int { return min(i, n-i) }) },
	"valley": func(rng *rand.Rand, n int) []int { return gen(n, func(i int) int { return max(i, n-i) }) },
	// all of one half before all of the other one
	"swapped": func(rng *rand.Rand, n int) []int {
		h := rng.Intn(n + 1)
		return gen(n, func(i int) int { return (i + h) % (n + 1) })
	},
	"halves": func(rng *rand.Rand, n int) []int { return gen(n, func(i int) int { return 1 - 2*i/(n+1) }) },
	"quarters": func(rng *rand.Rand, n int) []int {
		p := rng.Perm(4)
		return gen(n, func(i int) int { return p[4*i/(n+1)] })
	},
	// long runs of equal elements
	"runs": func(rng *rand.Rand, n int) []int {
		k, v, left := 2+rng.Intn(6), 0, 0
		return gen(n, func(i int) int {
			if left == 0 {
				left, v = 1+rng.Intn(n/4+1), rng.Intn(k)
			}
			left--
			return v
		})
	},
	"almost": func(rng *rand.Rand, n int) []int {
		a := gen(n, func(i int) int { return i / 2 })
		for k := rng.Intn(4); k >= 0 && n > 0; k-- {
			i, j := rng.Intn(n), rng.Intn(n)
			a[i], a[j] = a[j], a[i]
		}
		return a
	},
	"late": func(rng *rand.Rand, n int) []int { // only the last elements are out of order
		return gen(n, func(i int) int {
			if i >= n-1-rng.Intn(3) {
				return rng.Intn(n + 1)
			}
			return i
		})
	},
	"two": func(rng *rand.Rand, n int) []int {
		k := rng.Intn(n + 1)
		return gen(n, func(i int) int { return b2i(i < k) })
	},
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

func gen(n int, f func(i int) int) []int {
	a := make([]int, n)
	for i := range a {
		a[i] = f(i)
	}
	return a
}

var sortShapeNames []string

func init() {
	for s := range sortShapes {
		sortShapeNames = append(sortShapeNames, s)
	}
	gosort.Strings(sortShapeNames)
	suites["sort"] = sortSuite
	suites["sortrace"] = sortRaceSuite
}

// wideInts maps keys to ints over the whole range, keeping their order.
func wideInts(key []int) []int {
	x := make([]int, len(key))
	if len(key) == 0 {
		return x
	}
	lo, hi := slices.Min(key), slices.Max(key)
	step := uint64(math.MaxUint64) / uint64(hi-lo+1)
	for i, k := range key {
		if k == hi && hi > lo {
			x[i] = math.MaxInt64
		} else {
			x[i] = int(uint64(k-lo)*step ^ 1<<63)
		}
	}
	return x
}

var manyStrings []string

// wideStrings maps keys to strings of different lengths, keeping their order.
func wideStrings(key []int) []string {
	x := make([]string, len(key))
	if len(key) == 0 {
		return x
	}
	const m = 100000
	if manyStrings == nil {
		rng := rand.New(rand.NewSource(1))
		for _, p := range []string{"", "a", "\x00", "\xff\xfe", "é"} {
			for i := 0; i < m/4; i++ {
				b := []byte(p)
				for rng.Intn(6) > 0 {
					b = append(b, "\x00\x01 0aAbBz~\x7f\x80\xc3\xa9\xff"[rng.Intn(14)])
				}
				manyStrings = append(manyStrings, string(b))
			}
		}
		gosort.Strings(manyStrings)
		manyStrings = slices.Compact(manyStrings)
	}
	lo, hi := slices.Min(key), slices.Max(key)
	if hi-lo >= len(manyStrings) {
		for i, k := range key {
			x[i] = fmt.Sprintf("%09d", k-lo)
		}
		return x
	}
	for i, k := range key {
		x[i] = manyStrings[k-lo]
		if hi > lo { // spread
			x[i] = manyStrings[int(int64(k-lo)*int64(len(manyStrings)-1)/int64(hi-lo))]
		}
	}
	return x
}

// runSort executes one case. It returns how often each method was invoked.
func runSort(c *scase, key []int, data bool, pick func(ps []*vsched.Gate) *vsched.Gate, delays []vsched.Point) map[string]int {
	r := &srun{counts: map[string]int{}, hold: map[shold]bool{}}
	for _, h := range c.Hold {
		r.hold[h] = true
	}
	n := len(key)
	cfg := E{"fn": c.Fn, "n": n, "key": []int{}}
	ret := E{"e": "Ret", "r": false, "d": []int{}, "w": []int{}}
	var call func()
	switch c.Ty {
	case "coll":
		x := newColl(r, key)
		switch c.Fn {
		case "sort":
			call = func() { psort.Sort(x); r.end(); ret["w"] = x.elem }
		case "stable":
			call = func() { psort.StableSort(x); r.end(); ret["w"] = x.elem }
		case "is":
			call = func() { ret["r"] = psort.IsSorted(x); r.end() }
		}
	case "ints":
		x := append([]int(nil), key...)
		if c.Wide {
			x = wideInts(key)
		}
		before := append([]int(nil), x...)
		switch c.Fn {
		case "sort":
			call = func() { psort.Sort(psort.IntSlice(x)); ret["w"] = perm(before, x) }
		case "stable":
			call = func() { psort.StableSort(psort.IntSlice(x)); ret["w"] = perm(before, x) }
		case "is":
			call = func() { ret["r"] = psort.IntsAreSorted(x) }
		}
	case "strings":
		x := make([]string, n)
		for i, k := range key {
			x[i] = fmt.Sprintf("%09d", k)
			if k%3 == 0 {
				x[i] += strconv.Itoa(k % 5)
			}
		}
		if c.Wide {
			x = wideStrings(key)
		}
		before := append([]string(nil), x...)
		switch c.Fn {
		case "sort":
			call = func() { psort.Sort(psort.StringSlice(x)); ret["w"] = perm(before, x) }
		case "stable":
			call = func() { psort.StableSort(psort.StringSlice(x)); ret["w"] = perm(before, x) }
		case "is":
			call = func() { ret["r"] = psort.StringsAreSorted(x) }
		}
	case "floats":
		// 0 becomes NaN, 1 and 2 become -0 and +0 (which are equal)
		x := make([]float64, n)
		nkey := make([]int, n)
		bits := func(x []float64) []uint64 {
			b := make([]uint64, len(x))
			for i := range x {
				b[i] = math.Float64bits(x[i])
			}
			return b
		}
		for i, k := range key {
			nkey[i] = k
			switch k {
			case 0:
				x[i] = math.NaN()
			case 1:
				x[i] = math.Copysign(0, -1)
				nkey[i] = 2
			case 2:
				x[i] = 0
			default:
				if x[i] = float64(k) - 2.5; k > 1000 && k == n {
					x[i] = math.Inf(1)
					nkey[i] = 1 << 29
				}
			}
			if k < 0 {
				x[i], nkey[i] = math.Inf(-1), 1
			}
		}
		key = nkey
		before := bits(x)
		switch c.Fn {
		case "sort":
			call = func() { psort.Sort(psort.Float64Slice(x)); ret["w"] = perm(before, bits(x)) }
		case "stable":
			call = func() { psort.StableSort(psort.Float64Slice(x)); ret["w"] = perm(before, bits(x)) }
		case "is":
			call = func() { ret["r"] = psort.Float64sAreSorted(x) }
		}
	}
	if c.Fn == "is" {
		ret["d"] = descents(n, func(i, j int) bool { return key[i] < key[j] })
	} else if data {
		cfg["key"] = key
	}
	desc, _ := json.Marshal(c)
	R.Cur(string(desc), cfg)
	base := vsched.WaitQuiet()
	vsched.Begin(false, nil)
	done := false
	vsched.Mode(R.instrumented, delays)
	go func() {
		defer func() {
			if !done {
				recover()
				vsched.Log(E{"e": "Panic"})
				done = true
			}
		}()
		call()
		if !data {
			ret["w"] = []int{}
		}
		vsched.Log(ret)
		done = true
	}()
	ok := vsched.Drive(pick, func() bool { return done }, nil)
	vsched.Open()
	if vsched.Leaked(base) && ok {
		vsched.Log(E{"e": "Leak"})
		ok = false
	}
	R.Trace(vsched.Events())
	if !ok {
		R.Leak()
	}
	return r.counts
}

func (r *srun) end() {
	r.mu.Lock()
	r.ret = true
	r.mu.Unlock()
	atomic.StoreInt32(&r.watch, 1)
}

func anyGate(rng *rand.Rand) func(ps []*vsched.Gate) *vsched.Gate {
	last := rng.Intn(2) == 0
	return func(ps []*vsched.Gate) *vsched.Gate {
		if last { // the oldest is released last
			return ps[len(ps)-1]
		}
		return ps[rng.Intn(len(ps))]
	}
}

func sortSize(rng *rand.Rand, fn string) int {
	g := sortGrain
	if fn == "stable" {
		g = stableGrain
	}
	switch rng.Intn(12) {
	case 0:
		return rng.Intn(40)
	case 1:
		return g - 3 + rng.Intn(6)
	case 2:
		return 2*g - 3 + rng.Intn(6)
	case 3:
		if fn == "stable" {
			return []int{4*g - 1, 4 * g, 4*g + 5, 5*g + rng.Intn(g)}[rng.Intn(4)]
		}
		return 8*g + rng.Intn(8*g)
	case 4, 5:
		return g + rng.Intn(g)
	case 6:
		return 2*g + rng.Intn(g)
	}
	if fn == "stable" {
		return g + rng.Intn(300)
	}
	return g + rng.Intn(3*g)
}

func sortSuite() {
	vsched.MaxStep = 400000000
	fns := map[string][]string{"C08": {"sort", "sort", "stable"}, "C09": {"stable"}, "C10": {"is"}, "C11": {"sort", "stable", "is"}, "C25": {"sort", "stable", "is", "is"}}[R.props]
	quick := R.tier != "thorough"
	units := map[string]int{"C08": 300, "C09": 240, "C10": 1500, "C11": 1000, "C25": 200}[R.props]
	if !quick {
		units *= 12
	}
	if R.props == "C10" {
		sortSingles(quick)
	}
	if R.props == "C08" {
		sortRotations(quick)
		for n := 0; n < 48; n++ { // short ones
			R.Unit(func() {
				for _, s := range sortShapeNames {
					for _, ty := range []string{"coll", "ints", "floats", "strings"} {
						for _, fn := range []string{"sort", "stable"} {
							runSort(&scase{Fn: fn, Ty: ty, N: n, Shape: s, Wide: n%2 == 0}, sortShapes[s](R.rng, n), true, anyGate(R.rng), nil)
						}
					}
				}
			})
		}
	}
	if R.props == "C08" || R.props == "C09" {
		sizes := []int{1<<16 - 1, 1 << 16, 1<<16 + 1, 70000}
		if !quick {
			sizes = append(sizes, 1<<17-1, 1<<17+1, 100003, 140000)
		}
		for k, n := range sizes { // long ones
			for _, fn := range map[string][]string{"C08": {"sort", "stable"}, "C09": {"stable"}}[R.props] {
				k, n, fn := k, n, fn
				R.Unit(func() {
					shape := sortShapeNames[R.rng.Intn(len(sortShapeNames))]
					ty := []string{"ints", "floats", "strings"}[k%3]
					runSort(&scase{Fn: fn, Ty: ty, N: n, Shape: shape}, sortShapes[shape](R.rng, n), true, anyGate(R.rng), nil)
				})
			}
		}
	}
	for k := 0; k < units; k++ {
		k := k
		R.Unit(func() {
			rng := R.rng
			fn := fns[k%len(fns)]
			shape := sortShapeNames[rng.Intn(len(sortShapeNames))]
			if fn == "is" && rng.Intn(2) == 0 {
				shape = []string{"sorted", "almost", "late"}[rng.Intn(3)]
			}
			ty := "coll"
			if R.props != "C11" && R.props != "C25" && rng.Intn(2) == 0 {
				ty = []string{"ints", "floats", "strings"}[rng.Intn(3)]
				if R.props == "C09" {
					ty = "floats"
				}
			}
			n := sortSize(rng, fn)
			if (R.props == "C11" || R.props == "C25") && (n < sortGrain || fn == "stable" && n < stableGrain) {
				n = map[string]int{"sort": sortGrain, "stable": stableGrain, "is": sortGrain}[fn] + rng.Intn(400)
			}
			c := &scase{Fn: fn, Ty: ty, N: n, Shape: shape, Wide: rng.Intn(2) == 0}
			key := sortShapes[shape](rng, n)
			if ty == "floats" { // more of the special values
				m := 1 + rng.Intn(30)
				for i := range key {
					if rng.Intn(m) == 0 {
						key[i] = rng.Intn(5) - 1
					}
				}
				if shape == "sorted" {
					gosort.Ints(key)
				}
			}
			data := R.props != "C11" && R.props != "C25"
			cnt := runSort(c, key, data, anyGate(rng), nil)
			reps := 1
			switch R.props {
			case "C11":
				reps = 12
			case "C25":
				reps = 3
			}
			for i := 0; i < reps; i++ {
				var delays []vsched.Point
				c.Hold = nil
				if ty == "coll" {
					var ms []string
					for m := range cnt {
						ms = append(ms, m)
					}
					gosort.Strings(ms)
					for h := rng.Intn(4); h >= 0; h-- {
						m := ms[rng.Intn(len(ms))]
						c.Hold = append(c.Hold, shold{m, 1 + rng.Intn(cnt[m])})
					}
				}
				if ps := vsched.Points(4); len(ps) > 0 && (ty != "coll" || rng.Intn(2) == 0) {
					for h := rng.Intn(3); h >= 0; h-- {
						delays = append(delays, ps[rng.Intn(len(ps))])
					}
				}
				if i == 0 {
					R.Slow(k)
				}
				runSort(c, key, data, anyGate(rng), delays)
			}
		})
	}
}

// sortSingles calls IsSorted and its variants on data with one descent, at
// every position.
func sortSingles(quick bool) {
	sizes := []int{0, 1, 2, 3, 9, 10, 11, 1279, 1280, 1281, 1289, 1290, 1291, 2559, 2560, 2569, 2570, 2571, 2600, 5129, 5130, 5131, 6000}
	if !quick {
		for n := 4; n < 40; n++ {
			sizes = append(sizes, n)
		}
		for n := 1270; n < 1300; n++ {
			sizes = append(sizes, n)
		}
		sizes = append(sizes, 10000, 10251, 13000, 20000)
	}
	for _, n := range sizes {
		for _, ty := range []string{"ints", "floats", "strings", "coll"} {
			n, ty := n, ty
			R.Unit(func() {
				if ty != "ints" && n > 3000 && quick {
					return
				}
				for kind := 0; kind < 3; kind++ {
					desc, _ := json.Marshal(E{"singles": n, "ty": ty, "kind": kind})
					R.Cur(string(desc), E{"fn": "is", "n": n, "key": []int{}})
					yes := []int{}
					for p := 0; p < n; p++ {
						// position 0: no descent
						val := func(i int) int {
							switch kind {
							case 0: // two sorted parts
								if i < p {
									return n + i
								}
								if p == 0 {
									return i
								}
								return i - p
							case 1: // all equal but one step
								return b2i(i < p && p > 0)
							}
							if i == p && p > 0 { // one element too small
								return 2 * i
							}
							return 2*i + 3
						}
						var r bool
						switch ty {
						case "ints":
							x := gen(n, val)
							if kind > 0 {
								x = wideInts(x)
							}
							r = psort.IntsAreSorted(x)
						case "floats":
							x := make([]float64, n)
							for i := range x {
								if x[i] = float64(val(i)); kind == 1 && val(i) == 0 {
									x[i] = math.NaN() // sorts before 1
								}
							}
							r = psort.Float64sAreSorted(x)
						case "strings":
							x := make([]string, n)
							for i := range x {
								x[i] = string([]byte{byte(val(i) >> 16), byte(val(i) >> 8), byte(val(i))})
							}
							r = psort.StringsAreSorted(x)
						case "coll":
							r = psort.IsSorted(simple(gen(n, val)))
						}
						if r {
							yes = append(yes, p)
						}
						R.statsMap["singles"]++
					}
					vsched.Begin(false, nil)
					vsched.Log(E{"e": "Singles", "lo": 0, "hi": n - 1, "yes": yes})
					R.Trace(vsched.Events())
				}
			})
		}
	}
}

// sortRotations sorts all rotations of 0 .. n-1, which have one descent each.
func sortRotations(quick bool) {
	sizes := []int{1280, 1281, 1290, 2559, 2560, 2570, 2571, 2580, 3000, 5140}
	if !quick {
		for n := 1282; n < 1300; n++ {
			sizes = append(sizes, n, 2*n, 4*n)
		}
	}
	for _, n := range sizes {
		for part := 0; part < 4; part++ {
			n, part := n, part
			R.Unit(func() {
				desc, _ := json.Marshal(E{"rotations": n})
				R.Cur(string(desc), E{"fn": "sort", "n": n, "key": []int{}})
				outs := [][]int{}
			next:
				for p := part; p < n; p += 4 {
					x := gen(n, func(i int) int { return (i + p) % n })
					psort.Sort(psort.IntSlice(x))
					R.statsMap["rotations"]++
					for _, o := range outs {
						if slices.Equal(o, x) {
							continue next
						}
					}
					if len(outs) < 5 {
						outs = append(outs, x)
					}
				}
				vsched.Begin(false, nil)
				vsched.Log(E{"e": "Rotations", "outs": outs})
				R.Trace(vsched.Events())
			})
		}
	}
}

type simple []int

func (s simple) Len() int           { return len(s) }
func (s simple) Less(i, j int) bool { return s[i] < s[j] }
func (s simple) Swap(i, j int)      { panic("IsSorted swaps") }

// sortRaceSuite runs the sorting functions freely in a build with the race
// detector. The harness uses the collection before and after the calls, too.
func sortRaceSuite() {
	n := 150
	if R.tier == "thorough" {
		n = 2500
	}
	for k := 0; k < n; k++ {
		k := k
		R.Unit(func() {
			rng := R.rng
			fn := []string{"sort", "stable", "is"}[k%3]
			shape := sortShapeNames[rng.Intn(len(sortShapeNames))]
			if fn == "is" {
				shape = []string{"sorted", "almost", "late"}[rng.Intn(3)]
			}
			n := sortSize(rng, fn)
			desc, _ := json.Marshal(&scase{Fn: fn, Ty: "race", N: n, Shape: shape})
			R.Cur(string(desc), E{"fn": fn, "n": n, "key": []int{}})
			x := sortShapes[shape](rng, n)
			switch fn {
			case "sort":
				psort.Sort(psort.IntSlice(x))
			case "stable":
				psort.StableSort(psort.IntSlice(x))
			case "is":
				psort.IntsAreSorted(x)
			}
			for i := range x {
				x[i]++
			}
			if raced() {
				R.Trace([]E{{"e": "Race"}})
			} else {
				R.Trace([]E{})
			}
		})
	}
}
