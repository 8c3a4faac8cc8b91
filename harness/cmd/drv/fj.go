package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"os"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/exascience/pargo/parallel"
	"github.com/exascience/pargo/sequential"
	"github.com/exascience/pargo/speculative"
	"github.com/exascience/pargo/sync"
	"pargoverif/vsched"
)

// ---- values -----------------------------------------------------------------
//
// In the forms with a join function, the value of a function or batch that
// covers the positions [lo, hi) encodes this interval, and so does the result
// of joining adjacent intervals. In the sum and product forms, the value encodes
// the multiset (numbers) or sequence (strings) of positions.

type iv struct{ Lo, Hi int }

var badIv = iv{-1, -1}

// zeroIv is an interval whose value is encoded as the zero value of its type.
var zeroIv iv

const ivBase, ivLo = 1 << 45, 1 << 20

func encInt(v iv) int {
	if v == zeroIv {
		return 0
	}
	return ivBase + v.Lo*ivLo + v.Hi
}
func decInt(x int) iv {
	if x == 0 {
		return zeroIv
	}
	x -= ivBase
	if x < 0 || x >= ivBase {
		return badIv
	}
	return iv{x / ivLo, x % ivLo}
}
func encF(v iv) float64 {
	if v == zeroIv {
		return 0
	}
	return float64(encInt(v)) + 0.5
}
func decF(x float64) iv {
	if x == 0 {
		return zeroIv
	}
	return decInt(int(x - 0.5))
}
func encS(v iv) string {
	if v == zeroIv {
		return ""
	}
	return fmt.Sprintf("<%d,%d>", v.Lo, v.Hi)
}
func decS(x string) iv {
	if x == "" {
		return zeroIv
	}
	var v iv
	if n, err := fmt.Sscanf(x, "<%d,%d>", &v.Lo, &v.Hi); n != 2 || err != nil || encS(v) != x {
		return badIv
	}
	return v
}
func encA(v iv) interface{} {
	if v == zeroIv {
		return nil
	}
	return v
}
func decA(x interface{}) iv {
	if x == nil {
		return zeroIv
	}
	if v, ok := x.(iv); ok {
		return v
	}
	return badIv
}

var primes = []int{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47}

// plain, if not nil, is the case whose leaves yield numbers of its own.
var plain *fjCase

func plainInt(v iv) int { return plain.Vals[v.Lo%len(plain.Vals)] }
func plainWord(x int) []int {
	if x > 1<<30 || x < -1<<30 {
		x = 1 << 30
	}
	return []int{x}
}

func sumInt(v iv) (r int) {
	if plain != nil {
		return plainInt(v)
	}
	for p := v.Lo; p < v.Hi; p++ {
		r += 1 << (2 * uint(p))
	}
	return
}
func wordSumInt(x int) []int {
	if plain != nil {
		return plainWord(x)
	}
	w := []int{}
	if x < 0 {
		return []int{-1}
	}
	for p := 0; x > 0; p++ {
		for i := 0; i < x%4; i++ {
			w = append(w, p)
		}
		x /= 4
	}
	return w
}
func prodInt(v iv) int {
	if plain != nil {
		return plainInt(v)
	}
	r := 1
	for p := v.Lo; p < v.Hi; p++ {
		r *= primes[p]
	}
	return r
}
func wordProdInt(x int) []int {
	if plain != nil {
		return plainWord(x)
	}
	w := []int{}
	if x <= 0 {
		return []int{-1}
	}
	for p, q := range primes {
		for x%q == 0 {
			w = append(w, p)
			x /= q
		}
	}
	if x != 1 {
		return []int{-1}
	}
	return w
}

// Special floats, as FJAbs represents them.
const (
	fInf = 1000000001
	fNaN = 1000000003
)

func plainF(v iv) float64 {
	switch x := plainInt(v); x {
	case fInf:
		return math.Inf(1)
	case -fInf:
		return math.Inf(-1)
	case fNaN:
		return math.NaN()
	default:
		return float64(x)
	}
}
func plainWordF(x float64) []int {
	switch {
	case math.IsNaN(x):
		return []int{fNaN}
	case math.IsInf(x, 1):
		return []int{fInf}
	case math.IsInf(x, -1):
		return []int{-fInf}
	case x != math.Floor(x) || math.Abs(x) > 1<<30:
		return []int{-fNaN}
	}
	return []int{int(x)}
}
func sumF(v iv) float64 {
	if plain != nil {
		return plainF(v)
	}
	return float64(sumInt(v))
}
func wordSumF(x float64) []int {
	if plain != nil {
		return plainWordF(x)
	}
	return wordSumInt(int(x))
}
func prodF(v iv) float64 {
	if plain != nil {
		return plainF(v)
	}
	return float64(prodInt(v))
}
func wordProdF(x float64) []int {
	if plain != nil {
		return plainWordF(x)
	}
	return wordProdInt(int(x))
}
func sumS(v iv) (r string) {
	if plain != nil {
		for _, p := range plainS(v.Lo) {
			r += fmt.Sprintf("%d,", p)
		}
		return
	}
	for p := v.Lo; p < v.Hi; p++ {
		r += fmt.Sprintf("%d,", p)
	}
	return
}

// plainS: the word that the leaf at lo yields, maybe empty.
func plainS(lo int) []int {
	w := []int{}
	for i := 0; i < plain.Vals[lo%len(plain.Vals)]; i++ {
		w = append(w, lo)
	}
	return w
}
func wordSumS(x string) []int {
	w := []int{}
	for _, s := range strings.Split(x, ",") {
		if s == "" {
			continue
		}
		n, err := strconv.Atoi(s)
		if err != nil {
			return []int{-1}
		}
		w = append(w, n)
	}
	return w
}

// ---- cases ------------------------------------------------------------------

// fjCase describes one call. Positions are relative to Low in the trace.
type fjCase struct {
	Fn        string          `json:"fn"`
	Low       int             `json:"low"`
	Size      int             `json:"size"`           // number of functions, or size of the range
	N         int             `json:"n"`              // batches (range functions)
	Out       []string        `json:"out"`            // outcome per position: t, f (values), s (stop), p (panic)
	Join      map[int]string  `json:"join,omitempty"` // outcome of the join in the middle of which position m lies
	Zero      int             `json:"zero"`           // the leaf that starts here yields the zero value
	Panic     int             `json:"panic"`          // kind of panic values
	GateJoins bool            `json:"gatejoins,omitempty"`
	Auto      bool            `json:"auto,omitempty"` // maps: the default number of splits
	Vals      []int           `json:"vals,omitempty"` // sums: the leaf that starts at p yields Vals[p]
	Deep      int             `json:"deep,omitempty"` // panics arise in calls within the functions
	Nest      map[int]*fjCase `json:"nest,omitempty"` // calls that the leaf at this position makes
	Late      bool            `json:"late,omitempty"` // the call is made at any time, not at once
	tag       int
}

type fjErr struct{ id int }

func (e fjErr) Error() string { return fmt.Sprintf("boom#%d#", e.id) }

type fjRtErr struct{ id int }

func (e *fjRtErr) Error() string { return fmt.Sprintf("boom#%d#", e.id) }
func (e *fjRtErr) RuntimeError() {}

type fjStringer struct{ id int }

func (e fjStringer) String() string { return fmt.Sprintf("boom#%d#", e.id) }

// panicKind returns whether the i-th panic value is an error / a runtime error.
func panicKind(kind, id int) (k int, err, rt bool) {
	k = (kind + id) % 10
	switch k {
	case 1, 2, 3, 8:
		err = true
	case 4, 5:
		err, rt = true, true
	}
	return
}

func doPanic(kind, id int) {
	k, _, _ := panicKind(kind, id)
	switch k {
	case 0:
		panic(fmt.Sprintf("boom#%d#", id))
	case 1:
		panic(errors.New(fmt.Sprintf("boom#%d#", id)))
	case 2:
		panic(fjErr{id})
	case 3:
		panic(fmt.Errorf("wrapped: %w", fjErr{id}))
	case 4:
		panic(&fjRtErr{id})
	case 5:
		var a []int
		_ = a[7000+id]
	case 6:
		panic(fjStringer{id})
	case 7: // long
		panic(strings.Repeat("a long text % d\n", 600) + fmt.Sprintf("boom#%d#", id))
	case 8:
		panic(errors.New(fmt.Sprintf("first line %%s\n\tsecond line\nboom#%d#", id) + strings.Repeat(".", 5000)))
	case 9:
		panic([]interface{}{nil, fjStringer{id}, struct{ s string }{"x"}})
	}
}

// doPanicIn panics like doPanic, maybe within a further call to the library.
func (r *fjRun) doPanicIn(deep, kind, id int) {
	if r.kind == "seq" {
		defer func() {
			r.raw = recover()
			panic(r.raw)
		}()
	}
	body := func() { doPanic(kind, id) }
	nop := func() {}
	switch deep {
	case 1:
		parallel.Do(nop, body)
	case 2:
		parallel.Do(body, nop, nop)
	case 3:
		speculative.Or(func() bool { return false }, func() bool { body(); return false })
	case 4:
		parallel.Range(0, 4, 4, func(lo, hi int) {
			if lo == 3 {
				body()
			}
		})
	case 5:
		parallel.Do(nop, func() { parallel.Do(nop, body) })
	case 6:
		sequential.Do(nop, body)
	}
	body()
}

var boomRE = regexp.MustCompile(`boom#(\d+)#|out of range \[(\d+)\]`)

// panicIDs returns the ids of all original panic values whose text occurs in
// the text of x.
func panicIDs(x interface{}) []int {
	t := fmt.Sprint(x)
	ids := []int{}
	for _, x := range boomRE.FindAllStringSubmatch(t, -1) {
		id, _ := strconv.Atoi(x[1] + x[2])
		if x[2] != "" {
			id -= 7000
		}
		ids = append(ids, id)
	}
	slices.Sort(ids)
	return slices.Compact(ids)
}

type fjRun struct {
	c      *fjCase
	cls    string
	kind   string
	order  func(ps []*vsched.Gate) *vsched.Gate
	done   bool
	isOr   bool
	mark   func(lo int) E // extra fields of Start events
	fin    func()
	splits []*sync.Split
	m      *sync.Map
	rec    func(lo, hi int) // set: only record the batches
	big    *fjBig
	fn     *fjFn
	subs   map[int]*fjRun // calls made by leaves
	begun  bool
	goid   string      // of the caller of a sequential function
	raw    interface{} // the last panic value
}

// own adds to an event of a sequential call whether it happens on the
// goroutine of the call.
func (r *fjRun) own(e E) E {
	if r.kind == "seq" && !r.fn.lazy {
		e["own"] = goid() == r.goid
	}
	return e
}

func goid() string {
	var b [40]byte
	return strings.Fields(string(b[:runtime.Stack(b[:], false)]))[1]
}

// log and park record events; those of one among several calls tell which one.
func (r *fjRun) log(e E) {
	if r.c.tag > 0 {
		e["call"] = r.c.tag
	}
	vsched.Log(e)
}
func (r *fjRun) park(e E, g *vsched.Gate) {
	if r.c.tag > 0 {
		e["call"] = r.c.tag
	}
	vsched.LogPark(e, g)
}

// exec makes the call.
func (r *fjRun) exec() {
	defer func() {
		if !r.done {
			r.logPanic(recover())
		}
		r.done = true
	}()
	r.begun = true
	r.goid = goid()
	if r.c.tag > 0 {
		r.log(E{"e": "Begin"})
	}
	e := r.fn.call(r)
	r.log(e)
	r.done = true
}

// vals tells how the numbers of the leaves are combined.
func (r *fjRun) vals() string {
	switch {
	case r.c.Vals == nil:
		return "none"
	case strings.Contains(r.c.Fn, "String"):
		return "str"
	case strings.Contains(r.c.Fn, "Float64Product"):
		return "fprod"
	case strings.Contains(r.c.Fn, "Float"):
		return "fsum"
	case strings.Contains(r.c.Fn, "Product"):
		return "prod"
	}
	return "sum"
}

// leafOutcome: the leftmost special position decides for a whole batch.
func (r *fjRun) leafOutcome(lo, hi int) string {
	o := "t"
	if r.isOr {
		o = "f"
	}
	for p := lo; p < hi && p < len(r.c.Out); p++ {
		if p < 0 {
			continue
		}
		switch r.c.Out[p] {
		case "s", "p":
			return r.c.Out[p]
		case "t":
			if r.isOr {
				o = "t"
			}
		case "f":
			if !r.isOr {
				o = "f"
			}
		}
	}
	return o
}

// leaf is the body of every function or batch given to the library.
func (r *fjRun) leaf(lo, hi int) (stop, val bool, v iv) {
	if r.rec != nil {
		r.rec(lo, hi)
		return false, !r.isOr, iv{}
	}
	lo -= r.c.Low
	hi -= r.c.Low
	if r.big != nil {
		return r.big.leaf(r, lo, hi)
	}
	st := E{"e": "Start", "lo": lo, "hi": hi}
	if r.mark != nil {
		for k, x := range r.mark(lo) {
			st[k] = x
		}
	}
	r.own(st)
	r.park(st, &vsched.Gate{Label: "leaf", Key: lo + 100*r.c.tag})
	for p := lo; p < hi; p++ {
		if sub := r.subs[p]; sub != nil {
			sub.exec()
		}
	}
	o := r.leafOutcome(lo, hi)
	e := E{"e": "End", "lo": lo, "hi": hi, "o": o, "err": false, "rt": false}
	if o == "p" {
		_, e["err"], e["rt"] = panicKind(r.c.Panic, lo)
	}
	if r.c.Vals != nil && o != "p" {
		if r.vals() == "str" {
			e["w"] = plainS(lo)
		} else {
			e["w"] = []int{plainInt(iv{Lo: lo})}
		}
	}
	r.log(e)
	if o == "p" {
		r.doPanicIn(r.c.Deep, r.c.Panic, lo)
	}
	if lo == r.c.Zero-1 {
		zeroIv = iv{lo, hi}
	}
	return o == "s", o == "t", iv{lo, hi}
}

// join is the body of every join function.
func (r *fjRun) join(x, y iv) (iv, bool) {
	if r.rec != nil {
		return iv{}, false
	}
	if r.big != nil {
		return r.big.join(x, y)
	}
	st := r.own(E{"e": "JStart", "a": x.Lo, "b": x.Hi, "c": y.Lo, "d": y.Hi})
	if r.c.GateJoins {
		r.park(st, &vsched.Gate{Label: "join", Key: y.Lo})
	} else {
		r.log(st)
	}
	o, ok := r.c.Join[y.Lo]
	if !ok || (r.kind != "spec" && o == "s") {
		o = "t"
	}
	e := E{"e": "JEnd", "a": x.Lo, "b": x.Hi, "c": y.Lo, "d": y.Hi, "o": o, "err": false, "rt": false, "id": 0}
	if o == "p" {
		id := 100 + y.Lo
		e["id"] = id
		_, e["err"], e["rt"] = panicKind(r.c.Panic, id)
	}
	r.log(e)
	if o == "p" {
		r.doPanicIn(r.c.Deep, r.c.Panic, 100+y.Lo)
	}
	return iv{x.Lo, y.Hi}, o == "s"
}

// result of a call, in the form in which it is logged
func retV(v iv) E          { return E{"e": "Ret", "v": []int{v.Lo, v.Hi}, "s": false} }
func retVS(v iv, s bool) E { return E{"e": "Ret", "v": []int{v.Lo, v.Hi}, "s": s} }
func retW(w []int) E       { sort.Ints(w); return E{"e": "Ret", "w": w} }
func retWS(w []int) E      { return E{"e": "Ret", "w": w} }
func retB(b bool) E        { return E{"e": "Ret", "b": b} }
func retNone() E           { return E{"e": "Ret"} }

type fjFn struct {
	kind, cls string // cls: do, and, or, red, sum, sdo, range forms alike
	rng       bool
	isOr      bool
	call      func(r *fjRun) E
	lazy      bool
	prep      func(r *fjRun)
}

var fjFns = map[string]*fjFn{}
var fjNames []string

func reg(name string, f *fjFn) {
	fjFns[name] = f
	fjNames = append(fjNames, name)
}

func mk[T any](r *fjRun, f func(i int) T) (fs []T) {
	for i := 0; i < r.c.Size; i++ {
		fs = append(fs, f(i))
	}
	return
}

type redF[T any] func(join func(x, y T) T, first func() T, more ...func() T) T
type sumFn[T any] func(fs ...func() T) T
type rredF[T any] func(low, high, n int, reduce func(low, high int) T, join func(x, y T) T) T
type rsumF[T any] func(low, high, n int, reduce func(low, high int) T) T

func regRed[T any](name, kind string, f redF[T], enc func(iv) T, dec func(T) iv) {
	reg(name, &fjFn{kind: kind, cls: "red", call: func(r *fjRun) E {
		fs := mk(r, func(i int) func() T {
			return func() T { _, _, v := r.leaf(r.c.Low+i, r.c.Low+i+1); return enc(v) }
		})
		return retV(dec(f(func(x, y T) T { v, _ := r.join(dec(x), dec(y)); return enc(v) }, fs[0], fs[1:]...)))
	}})
}
func regSum[T any](name, kind string, f sumFn[T], enc func(iv) T, dec func(T) []int, ordered bool) {
	reg(name, &fjFn{kind: kind, cls: "sum", call: func(r *fjRun) E {
		fs := mk(r, func(i int) func() T {
			return func() T { _, _, v := r.leaf(r.c.Low+i, r.c.Low+i+1); return enc(v) }
		})
		w := dec(f(fs...))
		if !ordered {
			return retW(w)
		}
		return retWS(w)
	}})
}
func regRRed[T any](name, kind string, f rredF[T], enc func(iv) T, dec func(T) iv) {
	reg(name, &fjFn{kind: kind, cls: "red", rng: true, call: func(r *fjRun) E {
		return retV(dec(f(r.c.Low, r.c.Low+r.c.Size, r.c.N,
			func(lo, hi int) T { _, _, v := r.leaf(lo, hi); return enc(v) },
			func(x, y T) T { v, _ := r.join(dec(x), dec(y)); return enc(v) })))
	}})
}
func regRSum[T any](name, kind string, f rsumF[T], enc func(iv) T, dec func(T) []int, ordered bool) {
	reg(name, &fjFn{kind: kind, cls: "sum", rng: true, call: func(r *fjRun) E {
		w := dec(f(r.c.Low, r.c.Low+r.c.Size, r.c.N,
			func(lo, hi int) T { _, _, v := r.leaf(lo, hi); return enc(v) }))
		if !ordered {
			return retW(w)
		}
		return retWS(w)
	}})
}
func regSRed[T any](name string, f func(join func(x, y T) (T, bool), first func() (T, bool), more ...func() (T, bool)) (T, bool), enc func(iv) T, dec func(T) iv) {
	reg(name, &fjFn{kind: "spec", cls: "sred", call: func(r *fjRun) E {
		fs := mk(r, func(i int) func() (T, bool) {
			return func() (T, bool) { s, _, v := r.leaf(r.c.Low+i, r.c.Low+i+1); return enc(v), s }
		})
		x, s := f(func(x, y T) (T, bool) { v, s := r.join(dec(x), dec(y)); return enc(v), s }, fs[0], fs[1:]...)
		return retVS(dec(x), s)
	}})
}
func regSRRed[T any](name string, f func(low, high, n int, reduce func(low, high int) (T, bool), join func(x, y T) (T, bool)) (T, bool), enc func(iv) T, dec func(T) iv) {
	reg(name, &fjFn{kind: "spec", cls: "sred", rng: true, call: func(r *fjRun) E {
		x, s := f(r.c.Low, r.c.Low+r.c.Size, r.c.N,
			func(lo, hi int) (T, bool) { s, _, v := r.leaf(lo, hi); return enc(v), s },
			func(x, y T) (T, bool) { v, s := r.join(dec(x), dec(y)); return enc(v), s })
		return retVS(dec(x), s)
	}})
}
func regBool(name, kind, cls string, isOr bool, f func(fs ...func() bool) bool) {
	reg(name, &fjFn{kind: kind, cls: cls, isOr: isOr, call: func(r *fjRun) E {
		return retB(f(mk(r, func(i int) func() bool {
			return func() bool {
				stop, val, _ := r.leaf(r.c.Low+i, r.c.Low+i+1)
				return r.boolVal(stop, val)
			}
		})...))
	}})
}
func (r *fjRun) boolVal(stop, val bool) bool {
	if r.kind == "spec" {
		switch r.cls {
		case "and":
			return !stop
		default: // or, do
			return stop
		}
	}
	return val
}
func regRBool(name, kind, cls string, isOr bool, f func(low, high, n int, f func(low, high int) bool) bool) {
	reg(name, &fjFn{kind: kind, cls: cls, isOr: isOr, rng: true, call: func(r *fjRun) E {
		return retB(f(r.c.Low, r.c.Low+r.c.Size, r.c.N, func(lo, hi int) bool {
			stop, val, _ := r.leaf(lo, hi)
			return r.boolVal(stop, val)
		}))
	}})
}

func init() {
	doF := func(name, kind string, f func(fs ...func())) {
		reg(name, &fjFn{kind: kind, cls: "do", call: func(r *fjRun) E {
			f(mk(r, func(i int) func() { return func() { r.leaf(r.c.Low+i, r.c.Low+i+1) } })...)
			return retNone()
		}})
	}
	rngF := func(name, kind string, f func(low, high, n int, f func(low, high int))) {
		reg(name, &fjFn{kind: kind, cls: "do", rng: true, call: func(r *fjRun) E {
			f(r.c.Low, r.c.Low+r.c.Size, r.c.N, func(lo, hi int) { r.leaf(lo, hi) })
			return retNone()
		}})
	}
	doF("par.Do", "par", parallel.Do)
	doF("seq.Do", "seq", sequential.Do)
	rngF("par.Range", "par", parallel.Range)
	rngF("seq.Range", "seq", sequential.Range)

	regBool("par.And", "par", "and", false, parallel.And)
	regBool("par.Or", "par", "or", true, parallel.Or)
	regBool("seq.And", "seq", "and", false, sequential.And)
	regBool("seq.Or", "seq", "or", true, sequential.Or)
	regBool("spec.Do", "spec", "or", true, speculative.Do)
	regBool("spec.And", "spec", "and", false, speculative.And)
	regBool("spec.Or", "spec", "or", true, speculative.Or)
	regRBool("par.RangeAnd", "par", "and", false, parallel.RangeAnd)
	regRBool("par.RangeOr", "par", "or", true, parallel.RangeOr)
	regRBool("seq.RangeAnd", "seq", "and", false, sequential.RangeAnd)
	regRBool("seq.RangeOr", "seq", "or", true, sequential.RangeOr)
	regRBool("spec.Range", "spec", "or", true, speculative.Range)
	regRBool("spec.RangeAnd", "spec", "and", false, speculative.RangeAnd)
	regRBool("spec.RangeOr", "spec", "or", true, speculative.RangeOr)

	regRed("par.Reduce", "par", parallel.Reduce, encA, decA)
	regRed("par.ReduceFloat64", "par", parallel.ReduceFloat64, encF, decF)
	regRed("par.ReduceInt", "par", parallel.ReduceInt, encInt, decInt)
	regRed("par.ReduceString", "par", parallel.ReduceString, encS, decS)
	regRed("seq.Reduce", "seq", sequential.Reduce, encA, decA)
	regRed("seq.ReduceFloat64", "seq", sequential.ReduceFloat64, encF, decF)
	regRed("seq.ReduceInt", "seq", sequential.ReduceInt, encInt, decInt)
	regRed("seq.ReduceString", "seq", sequential.ReduceString, encS, decS)
	regSum("par.ReduceFloat64Sum", "par", parallel.ReduceFloat64Sum, sumF, wordSumF, false)
	regSum("par.ReduceFloat64Product", "par", parallel.ReduceFloat64Product, prodF, wordProdF, false)
	regSum("par.ReduceIntSum", "par", parallel.ReduceIntSum, sumInt, wordSumInt, false)
	regSum("par.ReduceIntProduct", "par", parallel.ReduceIntProduct, prodInt, wordProdInt, false)
	regSum("par.ReduceStringSum", "par", parallel.ReduceStringSum, sumS, wordSumS, true)
	regSum("seq.ReduceFloat64Sum", "seq", sequential.ReduceFloat64Sum, sumF, wordSumF, false)
	regSum("seq.ReduceFloat64Product", "seq", sequential.ReduceFloat64Product, prodF, wordProdF, false)
	regSum("seq.ReduceIntSum", "seq", sequential.ReduceIntSum, sumInt, wordSumInt, false)
	regSum("seq.ReduceIntProduct", "seq", sequential.ReduceIntProduct, prodInt, wordProdInt, false)
	regSum("seq.ReduceStringSum", "seq", sequential.ReduceStringSum, sumS, wordSumS, true)

	regRRed("par.RangeReduce", "par", parallel.RangeReduce, encA, decA)
	regRRed("par.RangeReduceInt", "par", parallel.RangeReduceInt, encInt, decInt)
	regRRed("par.RangeReduceFloat64", "par", parallel.RangeReduceFloat64, encF, decF)
	regRRed("par.RangeReduceString", "par", parallel.RangeReduceString, encS, decS)
	regRRed("seq.RangeReduce", "seq", sequential.RangeReduce, encA, decA)
	regRRed("seq.RangeReduceInt", "seq", sequential.RangeReduceInt, encInt, decInt)
	regRRed("seq.RangeReduceFloat64", "seq", sequential.RangeReduceFloat64, encF, decF)
	regRRed("seq.RangeReduceString", "seq", sequential.RangeReduceString, encS, decS)
	regRSum("par.RangeReduceIntSum", "par", parallel.RangeReduceIntSum, sumInt, wordSumInt, false)
	regRSum("par.RangeReduceIntProduct", "par", parallel.RangeReduceIntProduct, prodInt, wordProdInt, false)
	regRSum("par.RangeReduceFloat64Sum", "par", parallel.RangeReduceFloat64Sum, sumF, wordSumF, false)
	regRSum("par.RangeReduceFloat64Product", "par", parallel.RangeReduceFloat64Product, prodF, wordProdF, false)
	regRSum("par.RangeReduceStringSum", "par", parallel.RangeReduceStringSum, sumS, wordSumS, true)
	regRSum("seq.RangeReduceIntSum", "seq", sequential.RangeReduceIntSum, sumInt, wordSumInt, false)
	regRSum("seq.RangeReduceIntProduct", "seq", sequential.RangeReduceIntProduct, prodInt, wordProdInt, false)
	regRSum("seq.RangeReduceFloat64Sum", "seq", sequential.RangeReduceFloat64Sum, sumF, wordSumF, false)
	regRSum("seq.RangeReduceFloat64Product", "seq", sequential.RangeReduceFloat64Product, prodF, wordProdF, false)
	regRSum("seq.RangeReduceStringSum", "seq", sequential.RangeReduceStringSum, sumS, wordSumS, true)

	regSRed("spec.Reduce", speculative.Reduce, encA, decA)
	regSRed("spec.ReduceFloat64", speculative.ReduceFloat64, encF, decF)
	regSRed("spec.ReduceInt", speculative.ReduceInt, encInt, decInt)
	regSRed("spec.ReduceString", speculative.ReduceString, encS, decS)
	regSRRed("spec.RangeReduce", speculative.RangeReduce, encA, decA)
	regSRRed("spec.RangeReduceInt", speculative.RangeReduceInt, encInt, decInt)
	regSRRed("spec.RangeReduceFloat64", speculative.RangeReduceFloat64, encF, decF)
	regSRRed("spec.RangeReduceString", speculative.RangeReduceString, encS, decS)
	suites["fj"] = fjSuite
}

// runFJ executes one case and records its trace.
func runFJ(fn *fjFn, c *fjCase, order func(ps []*vsched.Gate) *vsched.Gate, delays []vsched.Point) {
	r := newFJRun(fn, c)
	desc, _ := json.Marshal(c)
	R.Cur(string(desc), r.cfg())
	plain = nil
	if c.Vals != nil {
		plain = c
	}
	if fn.prep != nil {
		fn.prep(r)
	}
	base := vsched.WaitQuiet()
	vsched.Begin(R.instrumented, delays)
	zeroIv = badIv
	go r.exec()
	if order == nil { // all invocations are held until quiescence, then none
		n := vsched.WaitQuiet()
		_ = n
		vsched.Log(E{"e": "Quiesce"})
		ev := vsched.Events()
		vsched.Open()
		left := vsched.Leaked(base)
		vsched.Confirm(func() bool { return !r.done })
		if !r.done {
			vsched.Log(E{"e": "Hang"})
		} else if left {
			vsched.Log(E{"e": "Leak"})
		}
		if c.Size < 300 || fn.kind == "seq" || !r.done || left {
			ev = vsched.Events()
		}
		R.Trace(ev)
		if !r.done || left {
			R.Leak()
		}
		return
	}
	ok := vsched.Drive(order, func() bool { return r.done }, nil)
	if ok && r.fin != nil {
		r.fin()
	}
	if ok {
		vsched.Open()
		if vsched.Leaked(base) {
			vsched.Log(E{"e": "Leak"})
			ok = false
		}
	}
	R.Trace(vsched.Events())
	if !ok {
		vsched.Open()
		R.Leak()
	}
}

func newFJRun(fn *fjFn, c *fjCase) *fjRun {
	r := &fjRun{c: c, fn: fn, kind: fn.kind, cls: fn.cls, isOr: fn.isOr, subs: map[int]*fjRun{}}
	for p, sub := range c.Nest {
		r.subs[p] = newFJRun(fjFns[sub.Fn], sub)
	}
	return r
}

func (r *fjRun) cfg() E {
	return E{"kind": r.kind, "cls": r.cls, "n": r.c.Size, "rng": r.fn.rng, "lazy": r.fn.lazy, "vals": r.vals()}
}

// runMulti executes several calls at the same time, which may make further
// calls, and records one trace per call.
func runMulti(cs []*fjCase, order func(ps []*vsched.Gate) *vsched.Gate, delays []vsched.Point) {
	var all, roots []*fjRun
	var walk func(r *fjRun)
	walk = func(r *fjRun) {
		all = append(all, r)
		r.c.tag = len(all)
		var ps []int
		for p := range r.subs {
			ps = append(ps, p)
		}
		sort.Ints(ps)
		for _, p := range ps {
			walk(r.subs[p])
		}
	}
	for _, c := range cs {
		r := newFJRun(fjFns[c.Fn], c)
		roots = append(roots, r)
		walk(r)
	}
	desc, _ := json.Marshal(cs)
	R.Cur(string(desc), roots[0].cfg())
	plain = nil
	zeroIv = badIv
	base := vsched.WaitQuiet()
	vsched.Begin(R.instrumented, delays)
	for _, r := range roots {
		if r.c.Late {
			go func() {
				vsched.Park(&vsched.Gate{Label: "root", Key: 100 * r.c.tag})
				r.exec()
			}()
			continue
		}
		go r.exec()
	}
	ok := vsched.Drive(order, func() bool {
		for _, r := range all {
			if r.begun && !r.done {
				return false
			}
		}
		return true
	}, nil)
	vsched.Open()
	if vsched.Leaked(base) && ok {
		vsched.Log(E{"e": "Leak"})
		ok = false
	}
	ev := vsched.Events()
	for _, r := range all {
		var mine []E
		begun, over := false, false
		for _, e := range ev {
			switch e["e"] {
			case "Quiesce", "Leak":
				if begun && (len(mine) == 0 || mine[len(mine)-1]["e"] != e["e"]) {
					mine = append(mine, e)
				}
				continue
			case "Hang":
				if begun && !over {
					mine = append(mine, e)
				}
				continue
			}
			if e["call"] != r.c.tag {
				continue
			}
			if e["e"] == "Begin" {
				begun = true
				continue
			}
			f := E{}
			for k, v := range e {
				if k != "call" {
					f[k] = v
				}
			}
			mine = append(mine, f)
			over = over || e["e"] == "Ret" || e["e"] == "Panic"
		}
		if begun {
			R.Cur(string(desc), r.cfg())
			R.Trace(mine)
		}
	}
	if !ok {
		R.Leak()
	}
}

func (r *fjRun) logPanic(p interface{}) {
	r.log(panicEvent(p, r))
}

// identical tells whether p and q are the same, also if they cannot be compared.
func identical(p, q interface{}) bool {
	if x, ok := p.([]interface{}); ok {
		y, ok := q.([]interface{})
		return ok && len(x) == len(y) && len(x) > 0 && &x[0] == &y[0]
	}
	return p == q
}

func panicEvent(p interface{}, r *fjRun) E {
	_, isErr := p.(error)
	_, isRt := p.(runtime.Error)
	return E{"e": "Panic", "ids": panicIDs(p), "err": isErr, "rt": isRt, "same": r.kind == "seq" && identical(p, r.raw)}
}

func script(ord []int) func(ps []*vsched.Gate) *vsched.Gate {
	rank := map[int]int{}
	for i, p := range ord {
		rank[p] = i
	}
	return func(ps []*vsched.Gate) *vsched.Gate {
		var best *vsched.Gate
		bi := 0
		for _, g := range ps {
			if g.Delay || g.Label == "join" {
				return g
			}
			if i, ok := rank[g.Key]; ok && (best == nil || i < bi) {
				best, bi = g, i
			}
		}
		if best == nil {
			return ps[0]
		}
		return best
	}
}

// randOrder releases gates in random order; delays are held with preference
// when holdDelays is set.
func randOrder(rng *rand.Rand, holdDelays bool) func(ps []*vsched.Gate) *vsched.Gate {
	return func(ps []*vsched.Gate) *vsched.Gate {
		if holdDelays {
			var q []*vsched.Gate
			for _, g := range ps {
				if !g.Delay {
					q = append(q, g)
				}
			}
			if len(q) > 0 {
				ps = q
			}
		}
		return ps[rng.Intn(len(ps))]
	}
}

type fjGen struct {
	N     int      `json:"n"`
	Out   []string `json:"out"`
	Order []int    `json:"order"`
}

func fjSuite() {
	var gen []fjGen
	if R.casesFile != "" {
		b, err := os.ReadFile(R.casesFile)
		if err == nil {
			err = json.Unmarshal(b, &gen)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, "cases:", err)
			os.Exit(4)
		}
	}
	allow := func(fn *fjFn, out []string) bool {
		for _, o := range out {
			if o == "s" && fn.kind != "spec" {
				return false
			}
			if o == "f" && (fn.kind == "spec" || (fn.cls != "and" && fn.cls != "or")) {
				return false
			}
			if o == "p" && fn.kind == "seq" && R.props != "C26" {
				return false
			}
		}
		return true
	}
	relevant := func(fn *fjFn) bool {
		switch R.props {
		case "C01":
			return fn.kind == "par"
		case "C26":
			return fn.kind == "seq"
		case "C03", "C05", "C25":
			return fn.kind != "seq"
		case "C06", "C07":
			return fn.kind == "spec"
		}
		return true
	}
	// 1. cases generated from the specification, for every function
	for _, name := range fjNames {
		fn := fjFns[name]
		if !relevant(fn) {
			continue
		}
		for ci := 0; ci < len(gen); ci += 16 {
			ci := ci
			R.Unit(func() {
				for cj := ci; cj < len(gen) && cj < ci+16; cj++ {
					g := gen[cj]
					out := append([]string(nil), g.Out...)
					for i, o := range out {
						if o == "t" && fn.kind == "spec" || o == "t" && fn.cls == "or" {
							out[i] = "t"
						}
						if fn.isOr && fn.kind == "par" { // conjunction and disjunction are dual
							if o == "t" {
								out[i] = "f"
							} else if o == "f" {
								out[i] = "t"
							}
						}
					}
					if !allow(fn, out) {
						continue
					}
					if fn.kind == "seq" && !sort.IntsAreSorted(g.Order) {
						continue
					}
					c := &fjCase{Fn: name, Size: g.N, N: g.N, Out: out, Panic: cj % 10, Zero: cj % (g.N + 2)}
					if (fn.cls == "red" || fn.cls == "sred") && !fn.rng && g.N == 0 {
						continue
					}
					if fn.rng && cj%3 == 0 {
						c.Low = (cj % 7) - 3
					}
					runFJ(fn, c, script(g.Order), nil)
				}
			})
		}
	}
	// many functions at once
	for _, name := range fjNames {
		fn := fjFns[name]
		if !relevant(fn) {
			continue
		}
		if fn.kind == "seq" && R.props != "C26" || fn.cls == "sum" && !strings.Contains(name, "String") {
			continue
		}
		sizes := []int{33, 140, 290}
		if R.props == "C26" {
			sizes = []int{33, 140, 300, 1100}
		}
		if R.props == "C03" {
			sizes = []int{40, 140, 1100}
		}
		for _, size := range sizes {
			R.Unit(func() {
				c := &fjCase{Fn: name, Size: size, N: size, Out: make([]string, size)}
				for i := range c.Out {
					c.Out[i] = "t"
				}
				runFJ(fn, c, nil, nil)
				if size > 300 {
					return
				}
				// one or two special outcomes
				specials := []string{"p"}
				switch {
				case fn.kind == "spec":
					specials = []string{"p", "s", "s"}
				case fn.cls == "and" || fn.cls == "or":
					specials = []string{"p", "f"}
				}
				if fn.kind == "seq" && R.props != "C26" {
					specials = nil
				}
				for _, o := range specials {
					d := *c
					d.Panic = R.rng.Intn(7)
					d.Out = append([]string{}, c.Out...)
					if fn.isOr && fn.kind != "spec" {
						for i := range d.Out {
							d.Out[i] = "f"
						}
						if o == "f" {
							o = "t"
						}
					}
					for i := 0; i < 1+R.rng.Intn(2); i++ {
						d.Out[R.rng.Intn(size)] = o
					}
					if allow(fn, d.Out) {
						runFJ(fn, &d, nil, nil)
					}
				}
			})
		}
	}
	// sums and products: every position of a panic, and of a special number
	for _, name := range fjNames {
		fn := fjFns[name]
		if !relevant(fn) || fn.cls != "sum" {
			continue
		}
		vals := []int{0, 1, -1}
		if strings.Contains(name, "String") {
			vals = []int{0}
		} else if strings.Contains(name, "Float64") {
			vals = append(vals, fInf, fNaN)
		}
		for _, v := range vals {
			R.Unit(func() {
				for n := 1; n <= 4; n++ {
					for z := 0; z <= n; z++ { // n: all of them
						for p := -1; p < n; p++ {
							c := &fjCase{Fn: name, Size: n, N: n, Panic: (n + z + p + 1) % 10}
							for i := 0; i <= n; i++ {
								x := 2
								if i == z || z == n {
									x = v
								}
								c.Vals = append(c.Vals, x)
								if i < n {
									c.Out = append(c.Out, "t")
								}
							}
							if p >= 0 {
								c.Out[p] = "p"
							}
							if !allow(fn, c.Out) {
								continue
							}
							runFJ(fn, c, func(ps []*vsched.Gate) *vsched.Gate { return ps[0] }, nil)
							if n > 1 {
								runFJ(fn, c, func(ps []*vsched.Gate) *vsched.Gate { return ps[len(ps)-1] }, nil)
							}
						}
					}
				}
			})
		}
	}
	// very many functions
	for _, name := range fjNames {
		if fn := fjFns[name]; relevant(fn) {
			fjBigAll(name, fn)
		}
	}
	// many calls, nested and at once
	for _, name := range fjNames {
		fn := fjFns[name]
		if !relevant(fn) || fn.kind == "seq" || fn.lazy {
			continue
		}
		for v := 0; v < 2; v++ {
			R.Unit(func() {
				mk := func(size int) *fjCase {
					c := &fjCase{Fn: name, Size: size, N: size, Out: make([]string, size)}
					for i := range c.Out {
						c.Out[i] = "t"
					}
					return c
				}
				var cs []*fjCase
				if v == 0 {
					c := mk(40)
					if fn.cls == "sum" && !strings.Contains(name, "String") {
						c = mk(10)
					}
					c.Nest = map[int]*fjCase{}
					for p := 0; p < c.Size; p++ {
						c.Nest[p] = mk(2)
					}
					cs = append(cs, c)
				} else {
					for i := 0; i < 40; i++ {
						cs = append(cs, mk(2))
					}
				}
				runMulti(cs, func(ps []*vsched.Gate) *vsched.Gate { return ps[0] }, nil)
			})
		}
	}
	// every single delay, for some outcomes
	for _, name := range fjNames {
		if fn := fjFns[name]; relevant(fn) {
			fjDelays(name, fn)
		}
	}
	// 2. random cases: larger sizes, joins with outcomes, uneven batches, and
	// delayed statements
	per := 30
	if R.props == "C06" || R.props == "C07" || R.props == "C26" {
		per = 60
	}
	if R.tier == "thorough" {
		per = 400
	}
	for _, name := range fjNames {
		fn := fjFns[name]
		if !relevant(fn) {
			continue
		}
		m := per
		if fn.cls == "sum" && R.props == "C02" {
			m *= 3
		}
		for k := 0; k < m; k++ {
			R.Unit(func() { fjRandom(name, fn) })
		}
	}
	// 3. concurrent and nested calls
	var names []string
	for _, name := range fjNames {
		if !fjFns[name].lazy && relevant(fjFns[name]) {
			names = append(names, name)
		}
	}
	multi := 400
	if R.tier == "thorough" {
		multi = 8000
	}
	for k := 0; k < multi && len(names) > 0; k++ {
		R.Unit(func() { fjMulti(names) })
	}
	// 4. many calls that take long
	if R.props != "C26" {
		for k := 0; k < 16 && len(names) > 0; k++ {
			R.Unit(func() {
				var cs []*fjCase
				for i := 0; i < 24; i++ {
					name := names[(24*k+i)%len(names)]
					c := fjRandomCase(name, fjFns[name], 2+R.rng.Intn(4))
					c.Zero, c.Vals = 0, nil
					cs = append(cs, c)
				}
				R.Slow(k, 0, 24, 48, 60+R.rng.Intn(12))
				order := randOrder(R.rng, false)
				if k%2 == 0 { // about from left to right
					order = func(ps []*vsched.Gate) *vsched.Gate {
						sort.SliceStable(ps, func(i, j int) bool { return ps[i].Key%100 < ps[j].Key%100 })
						return ps[0]
					}
				}
				runMulti(cs, order, nil)
			})
		}
	}
}

// fjDelays runs cases of every function with every single statement delayed
// until nothing else can happen.
func fjDelays(name string, fn *fjFn) {
	if fn.kind == "seq" || !R.instrumented {
		return
	}
	ends := []string{"n", "p"}
	if fn.kind == "spec" {
		ends = append(ends, "s")
	} else if fn.cls == "and" || fn.cls == "or" {
		ends = append(ends, "d")
	}
	sizes := []int{2, 3, 4}
	if R.tier == "thorough" {
		sizes = []int{2, 3, 4, 5, 6, 7, 8}
	}
	for _, first := range ends {
		for _, last := range ends {
			for _, size := range sizes {
				first, last, size := first, last, size
				R.Unit(func() {
					rng := R.rng
					c := &fjCase{Fn: name, Size: size, N: size, Out: make([]string, size), Panic: rng.Intn(10)}
					for i := range c.Out {
						o := "n"
						if i == 0 {
							o = first
						} else if i == size-1 {
							o = last
						}
						if o == "n" || o == "d" {
							o = map[bool]string{true: "t", false: "f"}[(o == "n") != (fn.isOr && fn.kind != "spec")]
						}
						c.Out[i] = o
					}
					if (fn.cls == "red" || fn.cls == "sred") && rng.Intn(3) == 0 {
						c.Join = map[int]string{1 + rng.Intn(size-1): map[bool]string{true: "s", false: "p"}[fn.kind == "spec"]}
					}
					runFJ(fn, c, randOrder(rng, false), nil)
					for _, p := range vsched.Points(3) {
						runFJ(fn, c, randOrder(rng, true), []vsched.Point{p})
					}
				})
			}
		}
	}
}

// fjMulti runs several, also nested calls at the same time.
func fjMulti(names []string) {
	rng := R.rng
	var mk func(depth int) *fjCase
	mk = func(depth int) *fjCase {
		name := names[rng.Intn(len(names))]
		fn := fjFns[name]
		size := rng.Intn(5)
		if depth == 0 {
			size = 2 + rng.Intn(3)
		}
		c := fjRandomCase(name, fn, size)
		c.Zero, c.Vals = 0, nil
		if depth < 2 && size > 0 {
			c.Nest = map[int]*fjCase{}
			for i := 0; i < 1+rng.Intn(2); i++ {
				if p := rng.Intn(size); rng.Intn(3) > 0 && p < c.Size {
					c.Nest[p] = mk(depth + 1)
				}
			}
		}
		return c
	}
	var cs []*fjCase
	for i := 0; i < 1+rng.Intn(3); i++ {
		c := mk(0)
		c.Late = rng.Intn(2) == 0
		cs = append(cs, c)
	}
	runMulti(cs, randOrder(rng, false), nil)
	// everything in progress at once
	runMulti(cs, func(ps []*vsched.Gate) *vsched.Gate { return ps[0] }, nil)
	if !R.instrumented {
		return
	}
	ps := vsched.Points(6)
	for i := 0; i < 3 && len(ps) > 0; i++ {
		ds := []vsched.Point{ps[rng.Intn(len(ps))]}
		for rng.Intn(2) == 0 {
			ds = append(ds, ps[rng.Intn(len(ps))])
		}
		runMulti(cs, randOrder(rng, rng.Intn(3) > 0), ds)
	}
}

func fjRandomCase(name string, fn *fjFn, size int) *fjCase {
	rng := R.rng
	c := &fjCase{Fn: name, Panic: rng.Intn(10), GateJoins: rng.Intn(2) == 0, Size: size}
	large := c.Size >= 10
	if rng.Intn(4) == 0 {
		c.Deep = 1 + rng.Intn(6)
	}
	c.Auto = fn.lazy && rng.Intn(8) == 0
	if fn.cls == "sum" && (large || rng.Intn(2) == 0) {
		ones := 0
		specials := strings.Contains(name, "Float") && rng.Intn(2) == 0
		for i := 0; i <= c.Size; i++ {
			v := rng.Intn(2001) - 1000
			switch {
			case rng.Intn(4) == 0:
				v = 0
			case rng.Intn(8) == 0:
				v = []int{1 << 24, -1 << 24, -1, 1}[rng.Intn(4)]
			}
			if strings.Contains(name, "String") {
				v = rng.Intn(3)
			} else if strings.Contains(name, "Product") {
				v = rng.Intn(7) - 3
				if v == 0 && rng.Intn(3) > 0 {
					v = 2
				}
				if ones++; ones > 15 {
					v = 1 - 2*rng.Intn(2)
				}
			}
			if specials && rng.Intn(4) == 0 {
				v = []int{fInf, fInf, -fInf, fNaN, 0, 0}[rng.Intn(6)]
			}
			c.Vals = append(c.Vals, v)
		}
	}
	if (fn.cls == "red" || fn.cls == "sred") && !fn.rng && c.Size == 0 {
		c.Size = 1
	}
	if fn.rng {
		switch rng.Intn(4) {
		case 0:
			c.N = 0
		case 1:
			c.N = c.Size + rng.Intn(3)
		default:
			c.N = 1 + rng.Intn(c.Size+1)
		}
		c.Low = rng.Intn(9) - 4
	}
	if rng.Intn(3) == 0 {
		c.Zero = 1 + rng.Intn(c.Size+1)
	}
	c.Out = make([]string, c.Size)
	special := rng.Intn(4) // how many special outcomes
	if rng.Intn(3) == 0 {
		special = 0
	}
	for i := range c.Out {
		c.Out[i] = "t"
		if fn.isOr {
			c.Out[i] = "f"
		}
	}
	for i := 0; i < special && c.Size > 0; i++ {
		p := rng.Intn(c.Size)
		switch {
		case fn.kind == "spec":
			c.Out[p] = []string{"s", "p", "s"}[rng.Intn(3)]
		case fn.kind == "par" && (fn.cls == "and" || fn.cls == "or"):
			c.Out[p] = []string{"f", "t", "p"}[rng.Intn(3)]
		case fn.kind == "par":
			c.Out[p] = "p"
		case fn.cls == "and" || fn.cls == "or":
			c.Out[p] = []string{"f", "t"}[rng.Intn(2)]
		}
		if (fn.lazy || R.props == "C26") && fn.kind == "seq" && rng.Intn(4) == 0 {
			c.Out[p] = "p"
		}
	}
	c.Join = map[int]string{}
	if (fn.cls == "red" || fn.cls == "sred") && (fn.kind != "seq" || fn.lazy || R.props == "C26") && rng.Intn(3) == 0 && c.Size > 1 {
		for i := 0; i < 1+rng.Intn(2); i++ {
			m := 1 + rng.Intn(c.Size-1)
			if fn.kind == "spec" {
				c.Join[m] = []string{"s", "p"}[rng.Intn(2)]
			} else {
				c.Join[m] = "p"
			}
		}
	}
	return c
}

func fjRandom(name string, fn *fjFn) {
	rng := R.rng
	size := rng.Intn(10)
	if fn.lazy {
		size = 1 + rng.Intn(9)
	}
	large := rng.Intn(10) == 0
	if large {
		size = 10 + rng.Intn(40)
	}
	c := fjRandomCase(name, fn, size)
	// plain run: also finds the points that are executed
	runFJ(fn, c, randOrder(rng, false), nil)
	if !R.instrumented || fn.kind == "seq" {
		if fn.lazy {
			runFJ(fn, c, randOrder(rng, false), nil)
		}
		return
	}
	ps := vsched.Points(4)
	runs := 6
	if large {
		runs = 2
	}
	if R.tier == "thorough" {
		runs = 25
	}
	for i := 0; i < runs && len(ps) > 0; i++ {
		ds := []vsched.Point{ps[rng.Intn(len(ps))]}
		for rng.Intn(2) == 0 {
			ds = append(ds, ps[rng.Intn(len(ps))])
		}
		runFJ(fn, c, randOrder(rng, rng.Intn(3) > 0), ds)
	}
}
