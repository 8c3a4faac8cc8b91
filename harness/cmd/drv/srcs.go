package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"sync"

	"github.com/exascience/pargo/pipeline"
	"pargoverif/vsched"
)

// Suite src: pipelines on all kinds of sources.

func init() { suites["src"] = srcSuite }

type sdesc struct {
	Kind   string `json:"kind"`
	N      int    `json:"n"`
	Known  bool   `json:"known"` // only for functions
	NB     int    `json:"nb"`
	Inc    int    `json:"inc"`
	Max    int    `json:"max"`
	Elem   int    `json:"elem"` // type of the elements
	Cap    int    `json:"cap"`  // of a channel
	Pre    bool   `json:"pre"`  // a channel is full from the start
	Split  int    `json:"split"`
	Chunk  int    `json:"chunk"` // of a reader
	Node   string `json:"node"`
	Fail   int    `json:"fail"`   // the source fails after so many elements
	Cancel int    `json:"cancel"` // cancelled after so many events
	Twice  bool   `json:"twice"`
	With   bool   `json:"with"` // the function returns the error together with data
	Long   bool   `json:"long"` // the scanner fails because of a long token
}

// the element with number i; 0 is the zero value
type (
	sname   string
	spair   struct{ A, B int }
	sislice []int
)

var elemTypes = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(""), reflect.TypeOf(byte(0)), reflect.TypeOf(spair{}),
	reflect.TypeOf((*interface{})(nil)).Elem(), reflect.TypeOf((*int)(nil)), reflect.TypeOf([]int(nil)), reflect.TypeOf(1.5),
}

func elemOf(t int, i int) reflect.Value {
	ty := elemTypes[t]
	if i == 0 {
		return reflect.Zero(ty)
	}
	switch t {
	case 0:
		return reflect.ValueOf(i)
	case 1:
		return reflect.ValueOf("x" + strconv.Itoa(i))
	case 2:
		return reflect.ValueOf(byte(i))
	case 3:
		return reflect.ValueOf(spair{i, -i})
	case 4:
		v := reflect.New(ty).Elem()
		switch i % 3 {
		case 0:
			v.Set(reflect.ValueOf(i))
		case 1:
			v.Set(reflect.ValueOf("y" + strconv.Itoa(i)))
		case 2:
			v.Set(reflect.ValueOf(spair{i, 0}))
		}
		return v
	case 5:
		return reflect.ValueOf(&i)
	case 6:
		return reflect.ValueOf([]int{i})
	}
	return reflect.ValueOf(float64(i))
}

// numOf is the inverse of elemOf.
func numOf(x interface{}) int {
	switch e := x.(type) {
	case nil:
		return 0
	case int:
		return e
	case byte:
		return int(e)
	case float64:
		return int(e)
	case spair:
		return e.A
	case *int:
		if e == nil {
			return 0
		}
		return *e
	case []int:
		if len(e) == 0 {
			return 0
		}
		return e[0]
	case string:
		if e == "" {
			return 0
		}
		n, err := strconv.Atoi(strings.TrimLeft(e, "xy"))
		if err != nil {
			return -1
		}
		return n
	}
	return -2
}

// numsOf returns the elements of a batch.
func numsOf(kind string, data interface{}) (d []int) {
	d = []int{}
	if kind == "single" {
		return append(d, numOf(data))
	}
	switch b := data.(type) {
	case nil:
		return
	case string: // of a string source
		for i := 0; i < len(b); i++ {
			d = append(d, int(b[i]))
		}
		return
	case [][]byte:
		for _, l := range b {
			d = append(d, numOf(string(l)))
		}
		return
	}
	v := reflect.ValueOf(data)
	if k := v.Kind(); k == reflect.String {
		return numsOf(kind, v.String())
	} else if k != reflect.Slice && k != reflect.Array {
		return append(d, -3)
	}
	for i := 0; i < v.Len(); i++ {
		d = append(d, numOf(v.Index(i).Interface()))
	}
	return
}

// wrapped logs what is asked from a source.
type wrapped struct{ pipeline.Source }

func (w wrapped) Fetch(n int) int {
	m := n
	if m > 1<<30 {
		m = 1 << 30
	}
	if m < -1<<30 {
		m = -1 << 30
	}
	vsched.Log(E{"e": "Req", "n": m})
	got := w.Source.Fetch(n)
	vsched.Log(E{"e": "Got", "n": got})
	return got
}

var keepMu sync.Mutex

var errReader = errors.New("the reader's error")

// chunks is a reader that returns small portions, and now and then nothing.
type chunks struct {
	b     []byte
	chunk int
	fail  bool
	turn  int
}

func (c *chunks) Read(p []byte) (int, error) {
	if c.turn++; c.turn%7 == 3 {
		return 0, nil
	}
	end := io.EOF
	if c.fail {
		end = errReader
	}
	if len(c.b) == 0 {
		if c.fail {
			vsched.Log(E{"e": "Fail"})
		}
		return 0, end
	}
	n := min(c.chunk, len(p), len(c.b))
	copy(p, c.b[:n])
	c.b = c.b[n:]
	if len(c.b) == 0 && c.chunk%2 == 0 && !c.fail {
		return n, end
	}
	return n, nil
}

func (c *sdesc) source(rng *rand.Rand, data []int) interface{} {
	n := len(data)
	switch c.Kind {
	case "slice":
		s := reflect.MakeSlice(reflect.SliceOf(elemTypes[c.Elem]), 0, n+3)
		for _, i := range data {
			s = reflect.Append(s, elemOf(c.Elem, i))
		}
		if c.Elem == 0 && c.Cap%2 == 1 { // a named slice type
			return sislice(s.Interface().([]int))
		}
		return s.Interface()
	case "array":
		a := reflect.New(reflect.ArrayOf(n, elemTypes[c.Elem])).Elem()
		for k, i := range data {
			a.Index(k).Set(elemOf(c.Elem, i))
		}
		return a.Interface()
	case "string":
		b := make([]byte, n)
		for k, i := range data {
			b[k] = byte(i)
		}
		if c.Cap%2 == 1 {
			return sname(b)
		}
		return string(b)
	case "chan", "single":
		ch := reflect.MakeChan(reflect.ChanOf(reflect.BothDir, elemTypes[c.Elem]), c.Cap)
		closed := c.Cancel == 0 || rng.Intn(2) == 0
		send := func(park bool) {
			for _, i := range data {
				if park {
					vsched.Park(&vsched.Gate{Label: "send"})
				}
				ch.Send(elemOf(c.Elem, i))
			}
			if park {
				vsched.Park(&vsched.Gate{Label: "send"})
			}
			if closed {
				ch.Close()
			}
		}
		if c.Pre && c.Cap >= n {
			send(false)
		} else {
			go func() { send(!c.Pre) }()
		}
		x := ch.Interface()
		if c.Cap%3 == 0 { // receive-only
			x = ch.Convert(reflect.ChanOf(reflect.RecvDir, elemTypes[c.Elem])).Interface()
		}
		if c.Kind == "single" {
			return wrapped{pipeline.NewSingletonChan(x)}
		}
		return x
	case "scan", "bytes":
		var buf bytes.Buffer
		for k, i := range data {
			if c.Long && k == c.Fail-1 {
				buf.WriteString(strings.Repeat("1", 40))
			}
			if i != 0 {
				buf.WriteString(strconv.Itoa(i))
			}
			last := k == len(data)-1
			switch c.Split {
			case 0: // lines
				if !last || i == 0 || c.Fail > 0 || c.Chunk%2 == 0 {
					if i%2 == 1 {
						buf.WriteByte('\r')
					}
					buf.WriteByte('\n')
				}
			case 1: // words
				buf.WriteString([]string{" ", "\n", "\t  "}[i%3])
			}
		}
		long := c.Long && c.Fail <= len(data)
		r := &chunks{b: buf.Bytes(), chunk: c.Chunk, fail: c.Fail > 0 && !long}
		max := 1 << 16
		if long {
			max = 20
			vsched.Log(E{"e": "Faulty"})
		}
		if c.Kind == "scan" {
			s := pipeline.NewScanner(r)
			if c.Cap%3 > 0 || long { // a small buffer is reused often
				s.Buffer(make([]byte, 4+c.Cap%7), max)
			}
			if c.Split == 1 {
				s.Split(bufio.ScanWords)
			}
			return wrapped{s}
		}
		s := pipeline.NewBytesScanner(r)
		if c.Cap%3 > 0 || long {
			s.Buffer(make([]byte, 4+c.Cap%7), max)
		}
		if c.Split == 1 {
			s.Split(bufio.ScanWords)
		}
		return wrapped{s}
	}
	// func
	size := -1
	if c.Known {
		size = n
	}
	rest := data
	failed := false
	return wrapped{pipeline.NewFunc(size, func(size int) (interface{}, int, error) {
		if c.Fail > 0 && n-len(rest) >= c.Fail && !c.With {
			vsched.Log(E{"e": "Fail"})
			return nil, 0, errReader
		}
		k := min(size, len(rest))
		if c.Split == 1 && k > 1 { // less than wanted
			k = 1 + rng.Intn(k)
		}
		if k < 0 {
			k = 0
		}
		if k == 0 {
			return nil, 0, nil
		}
		b := append([]int(nil), rest[:k]...)
		rest = rest[k:]
		if c.Fail > 0 && c.With && n-len(rest) >= c.Fail && !failed {
			failed = true
			vsched.Log(E{"e": "Fail"})
			return b, k, errReader
		}
		return b, k, nil
	})}
}

func runSrc(c *sdesc, rng *rand.Rand, delays []vsched.Point) {
	data := make([]int, c.N)
	for i := range data {
		data[i] = i + 1
		if c.Kind != "string" && !(c.Kind == "scan" || c.Kind == "bytes") && i%5 == 3 || (c.Kind == "scan" || c.Kind == "bytes") && c.Split == 0 && (i%4 == 2 || c.Cap%2 == 1 && i%7 > 3) {
			data[i] = 0
		}
	}
	known := c.Kind == "slice" || c.Kind == "array" || c.Kind == "string" || c.Kind == "func" && c.Known
	lim := func(x int) int {
		if x < 0 {
			return 0
		}
		if x > 1<<30 {
			return 1 << 30
		}
		return x
	}
	cfg := E{"data": data, "known": known, "nb": lim(c.NB), "inc": lim(c.Inc), "max": lim(c.Max),
		"exact": c.Kind != "single" && !(c.Kind == "func" && c.Split == 1), "single": c.Kind == "single"}
	desc, _ := json.Marshal(c)
	R.Cur(string(desc), cfg)
	base := vsched.WaitQuiet()
	_ = base
	vsched.Begin(false, nil)
	p := &pipeline.Pipeline{}
	if c.Twice {
		p.Source([]int{77, 78})
	}
	src := c.source(rng, data)
	p.Source(src)
	if c.NB != 0 || rng.Intn(2) == 0 {
		if rng.Intn(3) == 0 && c.NB > 0 {
			vsched.Log(E{"e": "Nof", "n": 7, "r": p.NofBatches(7)})
		}
		if rng.Intn(3) == 0 && c.NB > 0 {
			vsched.Log(E{"e": "Nof", "n": 0, "r": lim(p.NofBatches(0))})
		}
		if c.NB != 0 {
			vsched.Log(E{"e": "Nof", "n": lim(c.NB), "r": lim(p.NofBatches(c.NB))})
		}
		if rng.Intn(3) == 0 {
			vsched.Log(E{"e": "Nof", "n": 0, "r": lim(p.NofBatches(0))})
		}
	}
	if c.Inc != 0 || c.Max != 0 {
		p.SetVariableBatchSize(c.Inc, c.Max)
	}
	type kept struct {
		q    int
		data interface{}
	}
	var keep []kept
	rec := pipeline.Receive(func(q int, data interface{}) interface{} {
		vsched.LogPark(E{"e": "Batch", "q": q, "d": numsOf(c.Kind, data)}, &vsched.Gate{Label: "recv", Key: q})
		keepMu.Lock()
		keep = append(keep, kept{q, data})
		keepMu.Unlock()
		return data
	})
	switch c.Node {
	case "ord":
		p.Add(pipeline.Ord(rec))
	case "seq":
		p.Add(pipeline.Seq(rec))
	case "par":
		p.Add(pipeline.Par(rec))
	case "lpar":
		p.Add(pipeline.LimitedPar(3, rec))
	case "strict":
		p.Add(pipeline.StrictOrd(rec))
	}
	done := false
	ctx, cancel := context.WithCancel(context.Background())
	if c.Cancel > 0 {
		go func() {
			vsched.Park(&vsched.Gate{Label: "cancel"})
			vsched.Log(E{"e": "Cancel"})
			cancel()
		}()
	}
	vsched.Mode(R.instrumented, delays)
	go func() {
		defer func() {
			if !done {
				recover()
				vsched.Log(E{"e": "Panic"})
				done = true
			}
		}()
		if c.Cancel > 0 {
			p.RunWithContext(ctx, cancel)
		} else {
			p.Run()
		}
		e := "none"
		if err := p.Err(); err == errReader || c.Long && err == bufio.ErrTooLong {
			e = "src"
		} else if err != nil {
			e = "other"
		}
		vsched.Log(E{"e": "Ret", "err": e})
		done = true
	}()
	hold := rng.Intn(2) == 0
	ok := vsched.Drive(func(ps []*vsched.Gate) *vsched.Gate {
		var q []*vsched.Gate
		for _, g := range ps {
			if g.Label == "cancel" && (vsched.NEvents() >= c.Cancel || len(ps) == 1) {
				return g
			}
			if g.Label != "cancel" && !(g.Delay && hold) {
				q = append(q, g)
			}
		}
		if len(q) == 0 {
			q = ps
			if len(ps) > 1 && ps[0].Label == "cancel" {
				q = ps[1:]
			}
		}
		return q[rng.Intn(len(q))]
	}, func() bool { return done }, nil)
	if ok {
		cancel()
		vsched.Open()
		vsched.WaitQuiet()
		keepMu.Lock()
		for _, k := range keep {
			vsched.Log(E{"e": "Again", "q": k.q, "d": numsOf(c.Kind, k.data)})
		}
		keepMu.Unlock()
	}
	R.Trace(vsched.Events())
	if !ok || (c.Cancel > 0 || c.Fail > 0) && (c.Kind == "chan" || c.Kind == "single") { // a sender may be left
		vsched.Open()
		R.Leak()
	}
}

func srcSuite() {
	units := 3000
	if R.tier == "thorough" {
		units = 60000
	}
	if R.props == "C22" {
		srcBigAll()
	}
	for k := 0; k < units; k++ {
		k := k
		R.Unit(func() {
			rng := R.rng
			c := &sdesc{Kind: srcKinds[(k+k/8)%len(srcKinds)], N: rng.Intn(14), Known: rng.Intn(2) == 0, Elem: rng.Intn(len(elemTypes)),
				Cap: rng.Intn(6), Pre: rng.Intn(2) == 0, Split: rng.Intn(2), Chunk: 1 + rng.Intn(9),
				Node: []string{"ord", "ord", "seq", "par", "lpar", "strict"}[rng.Intn(6)], Twice: rng.Intn(8) == 0}
			if rng.Intn(4) == 0 {
				c.N = rng.Intn(90)
			}
			if c.Pre {
				c.Cap = rng.Intn(100)
			}
			if rng.Intn(4) > 0 {
				c.NB = []int{1, 2, 3, 4, 5, 7, 16, c.N + 1, c.N, c.N - 1, 1 << 40, -3}[rng.Intn(12)]
			}
			if rng.Intn(5) > 0 {
				c.Inc = []int{1, 1, 2, 3, 5, 8, c.N + 1, 1 << 40, 1<<63 - 1, -1}[rng.Intn(10)]
			}
			if rng.Intn(3) > 0 {
				c.Max = []int{1, 2, 3, 4, 7, 10, 1 << 40, 1<<63 - 1, -1}[rng.Intn(9)]
			}
			if c.Inc > 1<<30 && c.Max <= 0 && c.Kind != "func" {
				c.Max = 5
			}
			trouble := R.props != "C22"
			switch {
			case trouble && k%2 == 0:
				c.Kind = []string{"chan", "single", "chan", "single", "func"}[rng.Intn(5)]
				c.Cancel = 1 + rng.Intn(25)
			case trouble || rng.Intn(10) == 0:
				c.Kind = []string{"scan", "bytes", "func"}[rng.Intn(3)]
				c.Fail = 1 + rng.Intn(c.N+1)
				c.With = rng.Intn(2) == 0
				c.Long = c.Kind != "func" && rng.Intn(3) == 0
				if c.With && c.Fail > c.N {
					c.With = false
				}
			}
			if (c.Kind == "chan" || c.Kind == "single") && !c.Pre {
				R.Slow(k / 4)
			}
			runSrc(c, rng, nil)
			if ps := vsched.Points(3); len(ps) > 0 {
				for i := 0; i < 2; i++ {
					runSrc(c, rng, []vsched.Point{ps[rng.Intn(len(ps))]})
				}
			}
		})
	}
}

var srcKinds = []string{"slice", "array", "string", "chan", "single", "scan", "bytes", "func"}
