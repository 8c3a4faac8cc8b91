package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"runtime"
	gosync "sync"
	"sync/atomic"
	"time"

	"github.com/exascience/pargo/sync"
	"pargoverif/vsched"
)

// Maps with very many entries, used and visited by many goroutines that run
// freely. Every entry is changed by one goroutine only, which therefore knows
// what to expect, apart from a few that all of them use. One event summarizes
// what was seen.

type mbCase struct {
	Kind   string `json:"kind"` // ops, or the kind of an iteration
	Keys   int    `json:"keys"`
	Splits int    `json:"splits"`
	Hash   int    `json:"hash"` // how hash values are spread
	Gor    int    `json:"gor"`
	Procs  int    `json:"procs"`
	Stop   string `json:"stop,omitempty"` // no, stop, panic
	At     int    `json:"at"`             // the entry that stops or panics
	Types  bool   `json:"types,omitempty"`
	Seed   int64  `json:"seed"`
}

type (
	skey string
	pkey struct{ h uint64 }
	ikey uint64
)

func (k skey) Hash() (h uint64) {
	for _, c := range []byte(k) {
		h = h*31 + uint64(c)
	}
	return
}
func (k *pkey) Hash() uint64 { return k.h }
func (k ikey) Hash() uint64  { return uint64(k) }

func (c *mbCase) keys(rng *rand.Rand) (ks []sync.Hasher) {
	for i := 0; i < c.Keys; i++ {
		var h uint64
		switch c.Hash {
		case 0:
			h = uint64(i)
		case 1:
			h = rng.Uint64()
		case 2:
			h = uint64(i % 7)
		case 3:
			h = ^uint64(0) - uint64(i/2)
		}
		switch {
		case c.Types && i%4 == 1:
			ks = append(ks, skey(fmt.Sprint("key", i)))
		case c.Types && i%4 == 2:
			ks = append(ks, &pkey{h})
		case c.Types && i%4 == 3:
			ks = append(ks, ikey(uint64(i)<<32|h&0xffffffff))
		default:
			ks = append(ks, mkey{i + 1, h})
		}
	}
	return
}

type mbCount struct{ wrong, proto, own, shared, place, visit int32 }

func add(p *int32, cond bool) {
	if !cond {
		atomic.AddInt32(p, 1)
	}
}

// value: values of an entry, from -1 (absent); 0 is nil.
func (c *mbCase) same(v interface{}, ok bool, want int) bool {
	if want < 0 {
		return !ok && v == nil
	}
	return ok && dec(v) == want && (want != 0 || v == nil)
}

// mbOp makes an operation on a key that has the value cur.
func (c *mbCase) op(m *sync.Map, rng *rand.Rand, k sync.Hasher, cur int, cnt *mbCount) (now int) {
	v := rng.Intn(1000000)
	if rng.Intn(10) == 0 {
		v = 0
	}
	has := cur >= 0
	was := cur
	if !has {
		was = v
	}
	calls, arg := 0, true
	boom := rng.Intn(12) == 0
	compute := func() interface{} {
		calls++
		if boom {
			panic("boom")
		}
		return enc(v)
	}
	panics := func(f func()) (p bool) {
		defer func() { p = recover() != nil }()
		f()
		return
	}
	now = cur
	switch rng.Intn(11) {
	case 0, 1:
		x, ok := m.Load(k)
		add(&cnt.wrong, c.same(x, ok, cur))
	case 2:
		m.Delete(k)
		now = -1
	case 3:
		x, ok := m.LoadOrStore(k, enc(v))
		add(&cnt.wrong, ok == has && dec(x) == was)
		now = was
	case 4:
		x, ok := m.DeleteOrStore(k, enc(v))
		add(&cnt.wrong, ok == has && dec(x) == was)
		if now = v; has {
			now = -1
		}
	case 5, 6:
		var x interface{}
		var ok bool
		if p := panics(func() { x, ok = m.LoadOrCompute(k, compute) }); p {
			add(&cnt.proto, boom && !has)
			return
		}
		add(&cnt.wrong, ok == has && dec(x) == was)
		add(&cnt.proto, (calls == 1) == !has && calls < 2 && (has || !boom))
		now = was
	case 7, 8:
		var x interface{}
		var ok bool
		if p := panics(func() { x, ok = m.DeleteOrCompute(k, compute) }); p {
			add(&cnt.proto, boom && !has)
			return
		}
		add(&cnt.wrong, ok == has && dec(x) == was)
		add(&cnt.proto, (calls == 1) == !has && calls < 2 && (has || !boom))
		if now = v; has {
			now = -1
		}
	case 9:
		st := rng.Intn(3) > 0
		var x interface{}
		var ok bool
		if p := panics(func() {
			x, ok = m.Modify(k, func(old interface{}, found bool) (interface{}, bool) {
				calls++
				arg = c.same(old, found, cur)
				if boom {
					panic("boom")
				}
				return enc(v), st
			})
		}); p {
			add(&cnt.proto, boom && arg && calls == 1)
			return
		}
		add(&cnt.proto, calls == 1 && arg && !boom && ok == st && dec(x) == v)
		if now = v; !st {
			now = -1
		}
	case 10:
		s := m.Split(k)
		if rng.Intn(2) == 0 {
			s.RLock()
			x, ok := s.Map[k]
			s.RUnlock()
			add(&cnt.own, c.same(x, ok, cur))
			return
		}
		s.Lock()
		x, ok := s.Map[k]
		add(&cnt.own, c.same(x, ok, cur))
		if rng.Intn(2) == 0 {
			delete(s.Map, k)
			now = -1
		} else {
			s.Map[k] = enc(v)
			now = v
		}
		s.Unlock()
	}
	return
}

// check compares the map with what it should contain.
func (c *mbCase) check(m *sync.Map, ks []sync.Hasher, cur []int, cnt *mbCount) {
	n := 0
	for i, k := range ks {
		x, ok := m.Load(k)
		add(&cnt.wrong, c.same(x, ok, cur[i]))
		s := m.Split(k)
		x, ok = s.Map[k]
		add(&cnt.place, c.same(x, ok, cur[i]))
		if cur[i] >= 0 {
			n++
		}
	}
	splits := 0
	m.And(func(x map[interface{}]interface{}) bool {
		n -= len(x)
		splits++
		return true
	})
	add(&cnt.place, n == 0 && (c.Splits <= 0 || splits == c.Splits))
}

func (c *mbCase) ops(m *sync.Map, ks []sync.Hasher, cur []int) E {
	const shared = 12
	cnt := &mbCount{}
	var wg gosync.WaitGroup
	var wins, sum [shared]int64
	per := 3 * c.Keys / c.Gor
	for g := 0; g < c.Gor; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			rng := rand.New(rand.NewSource(c.Seed + int64(g)))
			for j := 0; j < per; j++ {
				if rng.Intn(6) == 0 { // used by all
					i := rng.Intn(shared)
					d := int64(1 + rng.Intn(9))
					inc := func(x interface{}, ok bool) (interface{}, bool) { n, _ := x.(int64); return n + d, true }
					switch {
					case i < 8:
						m.Modify(ks[i], inc)
						atomic.AddInt64(&sum[i], d)
					case i < 10: // only the first one is stored
						if _, loaded := m.LoadOrStore(ks[i], d); !loaded {
							atomic.AddInt64(&wins[i], 1)
						}
					default: // stored as often as deleted, or once more
						if rng.Intn(2) == 0 {
							if _, deleted := m.DeleteOrStore(ks[i], d); deleted {
								atomic.AddInt64(&wins[i], -1)
							} else {
								atomic.AddInt64(&wins[i], 1)
							}
						} else if _, deleted := m.DeleteOrCompute(ks[i], func() interface{} { return d }); deleted {
							atomic.AddInt64(&wins[i], -1)
						} else {
							atomic.AddInt64(&wins[i], 1)
						}
					}
					continue
				}
				i := shared + rng.Intn((c.Keys-shared)/c.Gor)*c.Gor + g
				cur[i] = c.op(m, rng, ks[i], cur[i], cnt)
			}
		}()
	}
	wg.Wait()
	for i := 0; i < shared; i++ {
		x, ok := m.Load(ks[i])
		n, _ := x.(int64)
		switch {
		case i < 8:
			add(&cnt.shared, n == sum[i])
		case i < 10:
			add(&cnt.shared, wins[i] == 1 && ok || wins[i] == 0 && !ok)
		default:
			add(&cnt.shared, wins[i] == 1 && ok || wins[i] == 0 && !ok)
		}
		m.Delete(ks[i])
	}
	c.check(m, ks, cur, cnt)
	return E{"e": "Big", "kind": "ops", "wrong": int(cnt.wrong), "proto": int(cnt.proto), "own": int(cnt.own), "shared": int(cnt.shared), "place": int(cnt.place)}
}

func (c *mbCase) iter(m *sync.Map, ks []sync.Hasher, cur []int) E {
	cnt := &mbCount{}
	index := map[interface{}]int{}
	for i, k := range ks {
		index[k] = i
		if x := int(c.Seed+int64(i)) % 5; x > 0 {
			cur[i] = x * i
			m.LoadOrStore(k, enc(cur[i]))
		}
	}
	for i := range cur {
		if cur[(c.At+i)%len(cur)] >= 0 {
			c.At = (c.At + i) % len(cur)
			break
		}
	}
	start, end := make([]int32, len(ks)), make([]int32, len(ks))
	var over, stopped, more, late, running int32
	overlap := false // a portion is visited by one goroutine at a time
	at := map[*sync.Split]*int32{}
	for _, k := range ks {
		if at[m.Split(k)] == nil {
			at[m.Split(k)] = new(int32)
		}
	}
	// others change their entries meanwhile: those after half of them
	half := len(ks)
	var wg gosync.WaitGroup
	var quit int32
	if c.Gor > 0 {
		half = len(ks) / 2
		for g := 0; g < c.Gor; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rng := rand.New(rand.NewSource(c.Seed + int64(g)))
				for atomic.LoadInt32(&quit) == 0 {
					i := half + rng.Intn((len(ks)-half)/c.Gor)*c.Gor + g
					if i < len(ks) {
						cur[i] = c.op(m, rng, ks[i], cur[i], cnt)
					}
				}
			}()
		}
		c.At %= half
		for cur[c.At] < 0 {
			c.At = (c.At + 1) % half
		}
	}
	f := func(k, v interface{}) bool {
		if atomic.LoadInt32(&over) != 0 {
			atomic.AddInt32(&late, 1)
		}
		if atomic.LoadInt32(&stopped) != 0 {
			atomic.AddInt32(&more, 1)
		}
		i, ok := index[k]
		if !ok {
			atomic.AddInt32(&cnt.visit, 1)
			return true
		}
		p := at[m.Split(k.(sync.Hasher))]
		if atomic.AddInt32(p, 1) > 1 {
			overlap = true
		}
		atomic.AddInt32(&running, 1)
		atomic.AddInt32(&start[i], 1)
		add(&cnt.visit, i >= half || c.same(v, true, cur[i]))
		if i%16 == 3 {
			runtime.Gosched()
		}
		x, ok := m.Split(k.(sync.Hasher)).Map[k] // nobody changes it now
		add(&cnt.visit, ok && dec(x) == dec(v))
		atomic.AddInt32(&end[i], 1)
		atomic.AddInt32(&running, -1)
		atomic.AddInt32(p, -1)
		if i == c.At && c.Stop != "no" {
			atomic.StoreInt32(&stopped, 1)
			if c.Stop == "panic" {
				panic("boom")
			}
			return false
		}
		return true
	}
	panicked := false
	func() {
		defer func() {
			panicked = recover() != nil
			atomic.StoreInt32(&over, 1)
		}()
		switch c.Kind {
		case "range":
			m.Range(f)
		case "prange":
			m.ParallelRange(func(k, v interface{}) { f(k, v) })
		case "srange":
			m.SpeculativeRange(f)
		}
	}()
	act := int(atomic.LoadInt32(&running))
	missing, twice := 0, 0
	for i := range ks {
		if i < half && cur[i] >= 0 && atomic.LoadInt32(&end[i]) == 0 {
			missing++
		}
		if s := atomic.LoadInt32(&start[i]); s > 1 || s > 0 && i < half && cur[i] < 0 {
			twice++
		}
	}
	atomic.StoreInt32(&quit, 1)
	wg.Wait()
	vsched.WaitQuiet()
	c.check(m, ks, cur, cnt)
	return E{"e": "Big", "kind": c.Kind, "missing": missing, "twice": twice, "wrong": int(cnt.visit), "more": int(more),
		"late": int(late), "act": act, "p": panicked, "overlap": overlap, "after": int(cnt.wrong + cnt.proto + cnt.own + cnt.place)}
}

func runMapBig(c *mbCase) {
	if R.nobig {
		return
	}
	desc, _ := json.Marshal(c)
	R.Cur(string(desc), E{"keys": 1, "split": []int{1}, "ord": false, "full": false, "own": R.props == "C27", "stop": c.Stop})
	base := vsched.WaitQuiet()
	vsched.Begin(false, nil)
	old := runtime.GOMAXPROCS(c.Procs)
	m := sync.NewMap(c.Splits)
	ks := c.keys(rand.New(rand.NewSource(c.Seed)))
	cur := make([]int, len(ks))
	for i := range cur {
		cur[i] = -1
	}
	var e E
	done := make(chan bool)
	go func() {
		defer close(done)
		if c.Kind == "ops" {
			e = c.ops(m, ks, cur)
		} else {
			e = c.iter(m, ks, cur)
		}
	}()
	select {
	case <-done:
	case <-time.After(100 * time.Second):
	}
	runtime.GOMAXPROCS(old)
	ev := []E{}
	if c.Kind != "ops" {
		ev = append(ev, E{"e": "ICall", "k": c.Kind})
	}
	select {
	case <-done:
	default:
		R.Trace(append(ev, E{"e": "Hang"}))
		R.BigHang()
		return
	}
	ev = append(ev, e)
	leak := vsched.Leaked(base)
	if leak {
		ev = append(ev, E{"e": "Leak"})
	}
	R.Trace(ev)
	if leak {
		R.Leak()
	}
}

func mapBigAll(kinds ...string) {
	sizes := []int{300, 3000}
	rep := 6
	if R.tier == "thorough" {
		sizes = append(sizes, 20000, 100000)
		rep = 25
	}
	for _, n := range sizes {
		for _, k := range kinds {
			for i := 0; i < rep; i++ {
				R.Unit(func() {
					rng := R.rng
					c := &mbCase{Kind: k, Keys: n, Splits: []int{1, 2, 7, 33, 64, 1000, 0}[rng.Intn(7)], Hash: i % 4, Gor: []int{1, 4, 8}[rng.Intn(3)],
						Procs: []int{1, 2, 8}[rng.Intn(3)], Types: rng.Intn(2) == 0, Seed: rng.Int63n(1 << 40), Stop: "no"}
					if c.Hash == 2 && n > 3000 {
						c.Hash = 1
					}
					if k != "ops" {
						c.Gor = []int{0, 0, 1, 4}[rng.Intn(4)]
						c.Stop = []string{"no", "stop", "panic"}[i%3]
						if c.Stop == "stop" && k == "prange" {
							c.Stop = "no"
						}
						c.At = rng.Intn(n)
					}
					runMapBig(c)
				})
			}
		}
	}
}
