// Command drv drives the library under test and records traces.
package main

import (
	"bufio"
	"crypto/sha256"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"time"

	"pargoverif/vsched"
)

type E = vsched.E

// A Runner executes the units of a suite that belong to this shard.
type Runner struct {
	unit, from, to, shard, nshards int
	run                            int
	seed                           int64
	tier                           string
	out                            *bufio.Writer
	cur                            *os.File
	seen                           map[[32]byte]bool
	executed, distinct             int
	deadline                       time.Time
	leaked                         int
	rng                            *rand.Rand
	instrumented                   bool
	casesFile                      string
	statsMap                       map[string]int
	curCfg                         E
	curDesc                        string
	props                          string
	outName                        string
	nobig                          bool
}

var R *Runner

// Unit runs f if the unit belongs to this shard. The random generator R.rng
// depends only on the seed and the unit's index.
func (r *Runner) Unit(f func()) {
	u := r.unit
	r.unit++
	if u%r.nshards != r.shard || u < r.from || u > r.to {
		return
	}
	if time.Now().After(r.deadline) {
		r.statsMap["skipped_units"]++
		return
	}
	r.rng = rand.New(rand.NewSource(r.seed*1000003 + int64(u)))
	r.run = 0
	r.statsMap["units"]++
	f()
}

// Slow makes some of the first units slow, see vsched.Slow.
func (r *Runner) Slow(k int, turns ...int) {
	max := 24
	if r.tier == "thorough" {
		max = 240
	}
	if k < max && len(turns) > 0 {
		vsched.Slow(turns...)
	} else if k < max {
		vsched.Slow(0, 1+r.rng.Intn(3+k%8))
	}
}

// Cur announces the run that is about to start; should the process crash, the
// parent attributes the crash to it.
func (r *Runner) Cur(desc string, cfg E) {
	r.curCfg, r.curDesc = cfg, desc
	b, _ := json.Marshal(E{"unit": r.unit - 1, "run": r.run, "desc": desc, "cfg": cfg})
	b = append(b, '\n')
	r.cur.WriteAt(b, 0)
}

// Trace records the trace of the current run, unless an equal one is recorded
// already.
func (r *Runner) Trace(ev []E) {
	body, err := json.Marshal(E{"cfg": r.curCfg, "ev": ev})
	if err != nil {
		fmt.Fprintln(os.Stderr, "marshal:", err)
		os.Exit(4)
	}
	r.executed++
	id := fmt.Sprintf("%d.%d", r.unit-1, r.run)
	r.run++
	k := sha256.Sum256(body)
	if r.seen[k] {
		return
	}
	r.seen[k] = true
	r.distinct++
	head, _ := json.Marshal(E{"id": id, "desc": r.curDesc})
	r.out.Write(head[:len(head)-1])
	r.out.WriteByte(',')
	r.out.Write(body[1:])
	r.out.WriteByte('\n')
	r.out.Flush()
}

func (r *Runner) finish(code int) {
	r.out.Flush()
	st := E{"executed": r.executed, "distinct": r.distinct, "snapshots": vsched.Snapshots, "stats": r.statsMap, "total_units": r.unit}
	b, _ := json.Marshal(st)
	fmt.Println("STATS " + string(b))
	os.Exit(code)
}

// Leak is called when goroutines of a case cannot be ended any more. After too
// many of them, the process asks to be restarted.
func (r *Runner) Leak() {
	r.leaked++
	if r.leaked >= 20 {
		r.statsMap["restart_from"] = r.unit
		r.finish(9)
	}
}

// BigHang is called when a large run does not end. The process asks to be
// restarted without large runs, each of which might take as long again.
func (r *Runner) BigHang() {
	r.statsMap["restart_from"] = r.unit
	r.statsMap["nobig"] = 1
	r.finish(9)
}

func main() {
	suite := flag.String("suite", "", "suite")
	seed := flag.Int64("seed", 1, "seed")
	shard := flag.Int("shard", 0, "shard")
	nshards := flag.Int("nshards", 1, "number of shards")
	from := flag.Int("from", 0, "first unit")
	to := flag.Int("to", 1<<30, "last unit")
	out := flag.String("out", "/dev/null", "trace file")
	tier := flag.String("tier", "quick", "tier")
	budget := flag.Float64("budget", 20, "seconds")
	cases := flag.String("cases", "", "file with cases generated from the specification")
	procs := flag.Int("procs", 2, "GOMAXPROCS")
	inst := flag.Bool("inst", true, "build is instrumented")
	journal := flag.String("journal", "", "write all events to this file at once")
	prop := flag.String("prop", "", "the property to check; suites may leave out what does not matter for it")
	nobig := flag.Bool("nobig", false, "leave out large runs")
	flag.Parse()
	runtime.GOMAXPROCS(*procs)
	debug.SetMaxStack(64 << 20)
	if *journal != "" {
		j, err := os.Create(*journal)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(4)
		}
		vsched.Journal = j
	}
	f, err := os.OpenFile(*out, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	cur, err := os.Create(*out + ".cur")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(4)
	}
	R = &Runner{from: *from, to: *to, shard: *shard, nshards: *nshards, seed: *seed, tier: *tier,
		out: bufio.NewWriterSize(f, 1<<20), cur: cur, seen: map[[32]byte]bool{},
		deadline:     time.Now().Add(time.Duration(*budget * float64(time.Second))),
		instrumented: *inst, nobig: *nobig, props: *prop, outName: *out, casesFile: *cases, statsMap: map[string]int{}}
	vsched.OnLive = func() {
		vsched.Log(E{"e": "Hang"})
		ev := vsched.Events()
		if len(ev) > 400 {
			ev = append(ev[:400:400], E{"e": "Hang"})
		}
		R.Trace(ev)
		R.statsMap["restart_from"] = R.unit
		R.finish(9)
	}
	s, ok := suites[*suite]
	if !ok {
		fmt.Fprintln(os.Stderr, "unknown suite")
		os.Exit(4)
	}
	s()
	R.finish(0)
}

var suites = map[string]func(){}
