package main

import (
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	gosync "sync"

	"github.com/exascience/pargo/sync"
)

// Suite maprace: operations run freely, in a build with the race detector; its
// reports become Race events. Nothing here may synchronize the goroutines, so
// nothing is logged.

func init() { suites["maprace"] = mapRaceSuite }

var raceSeen = map[string]int64{}

// raced tells whether the race detector has reported something about the
// library since the last call.
func raced() bool {
	r := false
	fs, _ := filepath.Glob(R.outName + ".race*")
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil || int64(len(b)) <= raceSeen[f] {
			continue
		}
		if strings.Contains(string(b[raceSeen[f]:]), "exascience/pargo") {
			r = true
		}
		raceSeen[f] = int64(len(b))
	}
	return r
}

func mapRaceSuite() {
	own := R.props == "C27" // with users that lock splits, and map-wide calls
	if own {
		raceKinds = append([]string{"own", "ownd", "rown", "own", "rown", "agg", "agg"}, raceKinds...)
	}
	n := 2500
	if R.tier == "thorough" {
		n = 6000
	}
	for i := 0; i < n; i++ {
		R.Unit(func() {
			rng := R.rng
			splits := mapSplits[rng.Intn(len(mapSplits))]
			keys := make([]mkey, 1+rng.Intn(3))
			split := make([]int, len(keys))
			for i := range keys {
				keys[i] = mkey{i, randHash(rng, splits)}
				split[i] = 1
			}
			R.Cur("race", E{"keys": len(keys), "split": split, "ord": false, "full": false, "own": own, "agg": own, "size": 0, "cls": split})
			for rep := 0; rep < 5; rep++ {
				m := sync.NewMap(splits)
				start := make(chan bool)
				var wg gosync.WaitGroup
				for g := 0; g < 4; g++ {
					wg.Add(1)
					seed := rng.Int63()
					// few kinds per goroutine, so that unlocked accesses are not
					// ordered by other, locked ones of the same goroutine
					kinds := []string{raceKinds[rng.Intn(len(raceKinds))], raceKinds[rng.Intn(len(raceKinds))]}
					go func() {
						defer wg.Done()
						r := rand.New(rand.NewSource(seed))
						<-start
						for j := 0; j < 8; j++ {
							raceOp(m, kinds[r.Intn(2)], keys[r.Intn(len(keys))], r.Intn(4) == 0)
						}
					}()
				}
				close(start)
				wg.Wait()
				if raced() {
					R.Trace([]E{{"e": "Race"}})
					return
				}
			}
			R.Trace([]E{})
		})
	}
}

var raceKinds = append([]string{"range", "prange", "srange"}, mapKinds...)

func raceOp(m *sync.Map, kind string, key mkey, yield bool) {
	defer func() { recover() }()
	comp := func() interface{} {
		if yield {
			runtime.Gosched()
		}
		if strings.HasSuffix(kind, "p") {
			panic("planned")
		}
		return 1
	}
	switch kind {
	case "own", "ownd":
		s := m.Split(key)
		s.Lock()
		defer s.Unlock()
		if s.Map[key] = 1; kind == "ownd" {
			delete(s.Map, key)
		}
	case "rown":
		s := m.Split(key)
		s.RLock()
		defer s.RUnlock()
		_ = s.Map[key]
	case "agg":
		calls := aggCalls(m, func(m map[interface{}]interface{}) bool { comp(); return len(m) >= 0 })
		calls[rand.Intn(len(calls))]()
	case "load":
		m.Load(key)
	case "direct":
		s := m.Split(key)
		s.Lock()
		_ = s.Map[key]
		s.Unlock()
	case "del":
		m.Delete(key)
	case "ls":
		m.LoadOrStore(key, 1)
	case "ds":
		m.DeleteOrStore(key, 1)
	case "loc", "locp":
		m.LoadOrCompute(key, comp)
	case "doc", "docp":
		m.DeleteOrCompute(key, comp)
	case "mod", "modd", "modp":
		m.Modify(key, func(interface{}, bool) (interface{}, bool) { return comp(), kind == "mod" })
	case "range":
		m.Range(func(key, value interface{}) bool { comp(); return !yield })
	case "prange":
		m.ParallelRange(func(key, value interface{}) { comp() })
	case "srange":
		m.SpeculativeRange(func(key, value interface{}) bool { comp(); return !yield })
	}
}
