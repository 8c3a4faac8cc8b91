// Package vsched controls and observes executions of the library under test.
//
// User callbacks and (in instrumented builds) every statement of the library
// are points at which a goroutine may be parked until the driver releases it.
// The driver recognizes quiescence - every other goroutine is blocked - from a
// stop-the-world snapshot of all goroutines, so that statements such as "must
// have returned by now" or "is deadlocked" are decided without time limits.
package vsched

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"time"
)

// E is an event of a trace.
type E = map[string]interface{}

// Gate is a parked goroutine.
type Gate struct {
	Delay bool   // parked at an instrumentation point, not in a callback
	Label string // what is parked
	Key   int    // meaning is up to the suite
	Aux   interface{}
	ch    chan struct{}
}

// Point is a dynamic program point: an instrumentation site and its occurrence.
type Point struct {
	Site, Occ int
}

const (
	modeOff = iota
	modeCount
	modeDelay
)

const maxSites = 1 << 14

var (
	mode    int32
	counts  [maxSites]int32
	total   int64
	mu      sync.Mutex
	events  []E
	parked  []*Gate
	delays  map[Point]bool
	closed  bool // no more parking: everything runs freely
	stackB  = make([]byte, 1<<20)
	OnLive  func()           // called when a case executes absurdly many statements
	MaxStep int64  = 3000000 // statements of a case
)

// P is called by instrumented code before every statement.
func P(site int) {
	m := atomic.LoadInt32(&mode)
	if m == modeOff {
		return
	}
	n := atomic.AddInt32(&counts[site], 1)
	if atomic.AddInt64(&total, 1) == MaxStep {
		atomic.StoreInt32(&mode, modeOff)
		if OnLive != nil {
			OnLive()
		}
	}
	if m == modeDelay {
		p := Point{site, int(n)}
		if delays[p] { // delays is read-only while a case runs
			Park(&Gate{Delay: true, Label: fmt.Sprintf("%d.%d", site, n), Key: site})
		}
	}
}

// Begin starts a case. With a non-nil ds, the given points are delayed.
func Begin(instrumented bool, ds []Point) {
	mu.Lock()
	if Journal != nil {
		Journal.Truncate(0)
		Journal.Seek(0, 0)
	}
	events = nil
	parked = nil
	closed = false
	mu.Unlock()
	Mode(instrumented, ds)
}

// Mode sets the delays within a case, and counts points from here on.
func Mode(instrumented bool, ds []Point) {
	mu.Lock()
	for i := range counts {
		counts[i] = 0
	}
	delays = make(map[Point]bool)
	for _, d := range ds {
		delays[d] = true
	}
	mu.Unlock()
	atomic.StoreInt64(&total, 0)
	switch {
	case !instrumented:
		atomic.StoreInt32(&mode, modeOff)
	case len(ds) > 0:
		atomic.StoreInt32(&mode, modeDelay)
	default:
		atomic.StoreInt32(&mode, modeCount)
	}
}

// Points returns the points executed since Begin, at most maxOcc per site.
func Points(maxOcc int) (ps []Point) {
	for s := range counts {
		n := int(atomic.LoadInt32(&counts[s]))
		if n > maxOcc {
			n = maxOcc
		}
		for o := 1; o <= n; o++ {
			ps = append(ps, Point{s, o})
		}
	}
	return
}

// Log appends an event to the trace of the current case.
func Log(e E) {
	mu.Lock()
	log(e)
	mu.Unlock()
}

// Journal, if set, receives all events of the current case at once, so that
// they survive a crash of the process.
var Journal *os.File

func log(e E) {
	events = append(events, e)
	if Journal != nil {
		b, _ := json.Marshal(e)
		Journal.Write(append(b, '\n'))
	}
}

// LogPark logs an event and parks, atomically with respect to the driver.
func LogPark(e E, g *Gate) {
	mu.Lock()
	log(e)
	if closed {
		mu.Unlock()
		return
	}
	g.ch = make(chan struct{})
	parked = append(parked, g)
	mu.Unlock()
	<-g.ch
}

// Park blocks the calling goroutine until the driver releases g.
func Park(g *Gate) {
	mu.Lock()
	if closed {
		mu.Unlock()
		return
	}
	g.ch = make(chan struct{})
	parked = append(parked, g)
	mu.Unlock()
	<-g.ch
}

// Parked returns the currently parked goroutines, oldest first.
func Parked() []*Gate {
	mu.Lock()
	defer mu.Unlock()
	return append([]*Gate(nil), parked...)
}

// Release lets a parked goroutine go on.
func Release(g *Gate) {
	mu.Lock()
	for i, h := range parked {
		if h == g {
			parked = append(parked[:i:i], parked[i+1:]...)
			break
		}
	}
	mu.Unlock()
	close(g.ch)
}

// Open releases everything, now and in the future.
func Open() {
	mu.Lock()
	closed = true
	ps := parked
	parked = nil
	mu.Unlock()
	for _, g := range ps {
		close(g.ch)
	}
}

// Events returns the trace so far.
func Events() []E {
	mu.Lock()
	defer mu.Unlock()
	return append([]E(nil), events...)
}

// NEvents returns the number of events so far.
func NEvents() int {
	mu.Lock()
	defer mu.Unlock()
	return len(events)
}

var blockedStates = [][]byte{
	[]byte("chan receive"), []byte("chan send"), []byte("select"),
	[]byte("sync."), []byte("finalizer wait"), []byte("cleanup wait"),
}

// blocked tells whether the goroutine with this header and stack is blocked. It
// is not if it only waits for the runtime (it helps the garbage collector, or
// wants to start it while the world is stopped for a snapshot).
func blocked(h, rest []byte) bool {
	i := bytes.IndexByte(h, '[')
	if i < 0 {
		return false
	}
	st := h[i+1:]
	for _, b := range blockedStates {
		if bytes.HasPrefix(st, b) {
			return true
		}
	}
	return bytes.HasPrefix(st, []byte("semacquire")) &&
		(bytes.HasPrefix(rest, []byte("sync.")) || bytes.HasPrefix(rest, []byte("internal/sync.")))
}

// quiet tells whether all goroutines but the calling one are blocked.
// It also returns the number of goroutines.
func quiet() (bool, int) {
	var n int
	for {
		n = runtime.Stack(stackB, true)
		if n < len(stackB) {
			break
		}
		stackB = make([]byte, 2*len(stackB))
	}
	s := stackB[:n]
	first := true
	cnt := 0
	for len(s) > 0 {
		// s starts at a goroutine header
		eol := bytes.IndexByte(s, '\n')
		if eol < 0 {
			eol = len(s)
		}
		h := s[:eol]
		cnt++
		if !first && !blocked(h, bytes.TrimPrefix(s[eol:], []byte("\n"))) {
			return false, cnt
		}
		first = false
		i := bytes.Index(s, []byte("\n\ngoroutine "))
		if i < 0 {
			break
		}
		s = s[i+2:]
	}
	return true, cnt
}

// StuckAfter is how long WaitQuiet waits before it gives up: the process then
// exits with an error (not a verdict).
var StuckAfter = 60 * time.Second

// Snapshots counts the snapshots taken.
var Snapshots int64

// WaitQuiet waits until all other goroutines are blocked.
func WaitQuiet() (goroutines int) {
	for i := 0; i < 3; i++ {
		runtime.Gosched()
	}
	var start time.Time
	for i := 0; ; i++ {
		Snapshots++
		if ok, n := quiet(); ok {
			return n
		}
		runtime.Gosched()
		if i > 20 {
			if start.IsZero() {
				start = time.Now()
			} else if time.Since(start) > StuckAfter {
				n := runtime.Stack(stackB, true)
				fmt.Fprintf(os.Stderr, "NOT QUIET\n%s\n", stackB[:n])
				os.Exit(5)
			}
			time.Sleep(20 * time.Microsecond)
		}
	}
}

// Confirm looks several times more, for a while, whether a condition that can
// only be temporary if WaitQuiet is wrong, persists.
func Confirm(cond func() bool) bool {
	for i := 0; i < 5; i++ {
		if !cond() {
			return false
		}
		time.Sleep(10 * time.Millisecond)
		WaitQuiet()
	}
	return cond()
}

// Leaked tells whether there are more goroutines than before.
func Leaked(base int) bool {
	return Confirm(func() bool { return WaitQuiet() > base })
}

// Drive runs a case until no goroutine is parked any more. After every step it
// waits for quiescence; pick selects the parked goroutine to release. A Quiesce
// event is logged at quiescence unless a goroutine is held at an
// instrumentation point. extra (optional) may start further work at quiescence
// when it returns true; done tells whether the calls under test have ended.
// Drive returns false if the calls did not end (after logging Hang).
//
// After a call of Slow, the next Drive lets some time pass before the turns
// with the given numbers: everything held remains held meanwhile.
func Drive(pick func(ps []*Gate) *Gate, done func() bool, atQuiet func(delayed bool) bool) bool {
	last := -1
	slow := slowAt
	slowAt = nil
	for turn := 0; ; turn++ {
		WaitQuiet()
		for len(slow) > 0 && slow[0] <= turn {
			slow = slow[1:]
			time.Sleep(slowFor)
			WaitQuiet()
		}
		ps := Parked()
		delayed := false
		for _, g := range ps {
			if g.Delay {
				delayed = true
			}
		}
		if !delayed {
			if n := NEvents(); n != last {
				Log(E{"e": "Quiesce"})
				last = n + 1
			}
		}
		if atQuiet != nil && atQuiet(delayed) {
			continue
		}
		if len(ps) == 0 {
			if done() {
				return true
			}
			n := NEvents()
			if !Confirm(func() bool { return !done() && len(Parked()) == 0 && NEvents() == n }) {
				continue
			}
			Log(E{"e": "Hang"})
			return false
		}
		if g := pick(ps); g != nil { // otherwise, pick has opened everything
			Release(g)
		}
	}
}

const slowFor = 1200 * time.Millisecond

var slowAt []int

// Slow makes the next Drive slow, see there. The turns are in ascending order.
func Slow(turns ...int) { slowAt = turns }
