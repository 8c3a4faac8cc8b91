package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"unsafe"

	"github.com/exascience/pargo/sync"
	"pargoverif/vsched"
)

// Suite mapagg: predicates and reductions over the splits of a parallel map,
// recorded as fork-join calls whose leaves are splits.

type smap = map[interface{}]interface{}

var aggFns = map[string]*fjFn{}
var aggNames []string

func agg(name, kind, cls string, isOr bool, call func(r *fjRun) E) {
	aggFns[name] = &fjFn{kind: kind, cls: cls, isOr: isOr, lazy: true, prep: aggPrep, call: call}
	aggNames = append(aggNames, name)
}

// aggPrep makes a map with one marked entry in every split.
func aggPrep(r *fjRun) {
	n := r.c.Size
	if r.c.Auto { // the default is the number of processors
		old := runtime.GOMAXPROCS(n)
		r.m = sync.NewMap(-(n % 3))
		runtime.GOMAXPROCS(old)
	} else {
		r.m = sync.NewMap(n)
	}
	keys := map[*sync.Split]mkey{}
	for h := 0; len(keys) < n && h < 1000*n; h++ {
		k := mkey{h, uint64(h)}
		if s := r.m.Split(k); keys[s].id == 0 {
			keys[s] = mkey{h + 1, uint64(h)}
		}
	}
	for s := range keys {
		r.splits = append(r.splits, s)
	}
	sort.Slice(r.splits, func(i, j int) bool {
		return uintptr(unsafe.Pointer(r.splits[i])) < uintptr(unsafe.Pointer(r.splits[j]))
	})
	for i, s := range r.splits {
		s.Lock()
		s.Map[keys[s]] = i
		s.Unlock()
	}
	r.mark = func(lo int) E {
		locked := false
		if lo >= 0 && lo < len(r.splits) {
			s := r.splits[lo]
			if locked = !s.TryRLock(); !locked {
				s.RUnlock()
			}
		}
		return E{"locked": locked}
	}
	r.fin = func() {
		ok := true
		for _, s := range r.splits {
			if !s.TryLock() {
				ok = false
			} else {
				s.Unlock()
			}
		}
		vsched.Log(E{"e": "Final", "unlocked": ok})
	}
}

func (r *fjRun) split(m smap) (stop, val bool, v iv) {
	i := -1
	for _, x := range m {
		if n, ok := x.(int); ok && len(m) == 1 {
			i = n
		}
	}
	return r.leaf(i, i+1)
}

func (r *fjRun) pred(m smap) bool {
	stop, val, _ := r.split(m)
	return r.boolVal(stop, val)
}

func aggRed[T any](name, kind string, f func(m *sync.Map, reduce func(smap) T, join func(x, y T) T) T, enc func(iv) T, dec func(T) iv) {
	agg(name, kind, "red", false, func(r *fjRun) E {
		return retV(dec(f(r.m, func(m smap) T { _, _, v := r.split(m); return enc(v) },
			func(x, y T) T { v, _ := r.join(dec(x), dec(y)); return enc(v) })))
	})
}
func aggSum[T any](name, kind string, f func(m *sync.Map, reduce func(smap) T) T, enc func(iv) T, dec func(T) []int, ordered bool) {
	agg(name, kind, "sum", false, func(r *fjRun) E {
		w := dec(f(r.m, func(m smap) T { _, _, v := r.split(m); return enc(v) }))
		if !ordered {
			return retW(w)
		}
		return retWS(w)
	})
}
func aggSRed[T any](name string, f func(m *sync.Map, reduce func(smap) (T, bool), join func(x, y T) (T, bool)) (T, bool), enc func(iv) T, dec func(T) iv) {
	agg(name, "spec", "sred", false, func(r *fjRun) E {
		x, s := f(r.m, func(m smap) (T, bool) { s, _, v := r.split(m); return enc(v), s },
			func(x, y T) (T, bool) { v, s := r.join(dec(x), dec(y)); return enc(v), s })
		return retVS(dec(x), s)
	})
}

func init() {
	suites["mapagg"] = aggSuite
	b := func(name, kind, cls string, f func(m *sync.Map, p func(smap) bool) bool) {
		agg(name, kind, cls, cls == "or", func(r *fjRun) E { return retB(f(r.m, r.pred)) })
	}
	b("Map.And", "seq", "and", (*sync.Map).And)
	b("Map.ParallelAnd", "par", "and", (*sync.Map).ParallelAnd)
	b("Map.SpeculativeAnd", "spec", "and", (*sync.Map).SpeculativeAnd)
	b("Map.Or", "seq", "or", (*sync.Map).Or)
	b("Map.ParallelOr", "par", "or", (*sync.Map).ParallelOr)
	b("Map.SpeculativeOr", "spec", "or", (*sync.Map).SpeculativeOr)
	aggRed("Map.Reduce", "seq", (*sync.Map).Reduce, encA, decA)
	aggRed("Map.ReduceFloat64", "seq", (*sync.Map).ReduceFloat64, encF, decF)
	aggRed("Map.ReduceInt", "seq", (*sync.Map).ReduceInt, encInt, decInt)
	aggRed("Map.ReduceString", "seq", (*sync.Map).ReduceString, encS, decS)
	aggRed("Map.ParallelReduce", "par", (*sync.Map).ParallelReduce, encA, decA)
	aggRed("Map.ParallelReduceFloat64", "par", (*sync.Map).ParallelReduceFloat64, encF, decF)
	aggRed("Map.ParallelReduceInt", "par", (*sync.Map).ParallelReduceInt, encInt, decInt)
	aggRed("Map.ParallelReduceString", "par", (*sync.Map).ParallelReduceString, encS, decS)
	aggSum("Map.ReduceFloat64Sum", "seq", (*sync.Map).ReduceFloat64Sum, sumF, wordSumF, false)
	aggSum("Map.ReduceFloat64Product", "seq", (*sync.Map).ReduceFloat64Product, prodF, wordProdF, false)
	aggSum("Map.ReduceIntSum", "seq", (*sync.Map).ReduceIntSum, sumInt, wordSumInt, false)
	aggSum("Map.ReduceIntProduct", "seq", (*sync.Map).ReduceIntProduct, prodInt, wordProdInt, false)
	aggSum("Map.ReduceStringSum", "seq", (*sync.Map).ReduceStringSum, sumS, wordSumS, true)
	aggSum("Map.ParallelReduceFloat64Sum", "par", (*sync.Map).ParallelReduceFloat64Sum, sumF, wordSumF, false)
	aggSum("Map.ParallelReduceFloat64Product", "par", (*sync.Map).ParallelReduceFloat64Product, prodF, wordProdF, false)
	aggSum("Map.ParallelReduceIntSum", "par", (*sync.Map).ParallelReduceIntSum, sumInt, wordSumInt, false)
	aggSum("Map.ParallelReduceIntProduct", "par", (*sync.Map).ParallelReduceIntProduct, prodInt, wordProdInt, false)
	aggSum("Map.ParallelReduceStringSum", "par", (*sync.Map).ParallelReduceStringSum, sumS, wordSumS, true)
	aggSRed("Map.SpeculativeReduce", (*sync.Map).SpeculativeReduce, encA, decA)
	aggSRed("Map.SpeculativeReduceFloat64", (*sync.Map).SpeculativeReduceFloat64, encF, decF)
	aggSRed("Map.SpeculativeReduceInt", (*sync.Map).SpeculativeReduceInt, encInt, decInt)
	aggSRed("Map.SpeculativeReduceString", (*sync.Map).SpeculativeReduceString, encS, decS)
}

func aggSuite() {
	var gen []fjGen
	b, err := os.ReadFile(R.casesFile)
	if err == nil {
		err = json.Unmarshal(b, &gen)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "cases:", err)
		os.Exit(4)
	}
	for _, name := range aggNames {
		fn := aggFns[name]
		for ci := 0; ci < len(gen); ci += 16 {
			R.Unit(func() {
				for cj := ci; cj < len(gen) && cj < ci+16; cj++ {
					g := gen[cj]
					if g.N == 0 || fn.kind == "seq" && !sort.IntsAreSorted(g.Order) {
						continue
					}
					out, ok := aggOut(fn, g.Out)
					if !ok {
						continue
					}
					c := &fjCase{Fn: name, Size: g.N, N: g.N, Out: out, Panic: cj % 10, Zero: cj % (g.N + 2)}
					runFJ(fn, c, script(g.Order), nil)
				}
			})
		}
	}
	for _, name := range aggNames {
		fjDelays(name, aggFns[name])
		fjBigAll(name, aggFns[name])
	}
	per := 40
	if R.tier == "thorough" {
		per = 600
	}
	for f, name := range aggNames {
		for k := 0; k < per; k++ {
			R.Unit(func() {
				if k < 8 {
					R.Slow(24 * ((k + f) % 8)) // one of them
				}
				fjRandom(name, aggFns[name])
			})
		}
	}
}

// aggOut adapts generated outcomes to the kind of function.
func aggOut(fn *fjFn, gen []string) (out []string, ok bool) {
	for _, o := range gen {
		switch {
		case o == "s" && fn.kind != "spec":
			return nil, false
		case o == "f" && (fn.kind == "spec" || fn.cls != "and" && fn.cls != "or"):
			return nil, false
		case fn.isOr && fn.kind != "spec" && o == "t":
			o = "f"
		case fn.isOr && fn.kind != "spec" && o == "f":
			o = "t"
		}
		out = append(out, o)
	}
	return out, true
}
