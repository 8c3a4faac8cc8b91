package main

import (
	"math"
	"runtime"
	"sort"
	"strconv"
	"sync"

	"pargoverif/vsched"
)

// Suite rng: which batches do the range functions of the three packages use?

func init() { suites["rng"] = rngSuite }

const tlcMax = 1<<31 - 1

// fold maps the values 0..size monotonically to small integers; small sizes are
// not changed.
func fold(v, size int) int {
	const half = 1 << 29
	switch {
	case size < tlcMax || v < half:
		return v
	case size-v < half:
		return tlcMax - (size - v)
	}
	// enough resolution for the few batches that are used with large sizes
	return half + int(float64(v)/float64(size)*float64(half)*1.9)
}

func rngCase(low, size, n, procs int) {
	cfg := E{"size": fold(size, size), "n": fold(n, math.MaxInt64), "low": strconv.Itoa(low), "procs": procs}
	if size < 0 {
		cfg["size"] = -1
	}
	if procs > 0 {
		old := runtime.GOMAXPROCS(procs)
		defer runtime.GOMAXPROCS(old)
	}
	R.Cur("", cfg)
	vsched.Begin(false, nil)
	type res struct {
		b string
		p bool
	}
	seen := map[string]bool{}
	var ev []E
	for _, name := range fjNames {
		fn := fjFns[name]
		if !fn.rng {
			continue
		}
		var mu sync.Mutex
		bs := [][2]int{}
		r := &fjRun{c: &fjCase{Low: low, Size: size, N: n}, kind: fn.kind, cls: fn.cls, isOr: fn.isOr}
		r.rec = func(lo, hi int) {
			mu.Lock()
			if len(bs) < 1000 {
				bs = append(bs, [2]int{lo - low, hi - low})
			}
			mu.Unlock()
		}
		panicked := false
		func() {
			defer func() {
				if recover() != nil {
					panicked = true
				}
			}()
			fn.call(r)
		}()
		mu.Lock()
		sort.Slice(bs, func(i, j int) bool {
			return bs[i][0] < bs[j][0] || bs[i][0] == bs[j][0] && bs[i][1] < bs[j][1]
		})
		key := []byte{0}
		if panicked {
			key[0] = 1
		}
		for i, b := range bs {
			for k, v := range b {
				v := fold(v, size)
				bs[i][k] = v
				for s := uint(0); s < 32; s += 8 {
					key = append(key, byte(v>>s))
				}
			}
		}
		if !seen[string(key)] {
			seen[string(key)] = true
			ev = append(ev, E{"e": "Call", "b": bs, "p": panicked, "fn": name})
		}
		mu.Unlock()
	}
	R.statsMap["calls"] += 36
	R.Trace(ev)
}

func rngSuite() {
	maxSize, maxN := 64, 70
	if R.tier == "thorough" {
		maxSize, maxN = 230, 260
	}
	procs := []int{1, 2, 3, 8, 5, 64, 100}
	lows := []int{0, 1, -1, -7, 1000, -100000, math.MinInt64, math.MaxInt64 - 300}
	for size := -2; size <= maxSize; size++ {
		R.Unit(func() {
			for n := -2; n <= maxN; n++ {
				low := lows[R.rng.Intn(len(lows))]
				if size < 0 && low == math.MinInt64 {
					low = 0
				}
				if n != 0 {
					rngCase(low, size, n, 0)
					continue
				}
				for _, p := range procs {
					rngCase(low, size, n, p)
				}
			}
		})
	}
	for k := 0; k < maxSize; k++ {
		R.Unit(func() { // large ranges
			for i := 0; i < 10; i++ {
				size := 1 << uint(8+R.rng.Intn(54))
				switch R.rng.Intn(3) {
				case 0:
					size -= R.rng.Intn(100)
				case 1:
					size += R.rng.Intn(100)
				default:
					size = R.rng.Intn(size)
				}
				n := R.rng.Intn(140)
				switch R.rng.Intn(12) {
				case 0: // many batches
					n = 140 + R.rng.Intn(800)
				case 1: // small ranges, any number of batches
					size = 1 + R.rng.Intn(900)
					n = 1 + R.rng.Intn(1100)
				case 2: // absurdly many
					size = R.rng.Intn(300)
					n = math.MaxInt64 - R.rng.Intn(1<<uint(1+R.rng.Intn(62)))
				case 3:
					size = R.rng.Intn(300)
					n = 1<<uint(8+R.rng.Intn(55)) - 1
				}
				low := 0
				switch R.rng.Intn(4) {
				case 0:
					low = -size / 2
				case 1:
					low = math.MinInt64
				case 2:
					low = math.MaxInt64 - size
				}
				p := 0
				if n == 0 {
					p = procs[R.rng.Intn(len(procs))]
				}
				rngCase(low, size, n, p)
			}
		})
	}
}
