package main

import (
	"context"
	"encoding/json"
	"math/rand"
	"runtime"

	"github.com/exascience/pargo/pipeline"
)

// Suite piperace: pipelines run freely, in a build with the race detector.
// Filters use their state, and batches are modified, without synchronization
// where the library promises that this is safe; nothing is logged.

func init() { suites["piperace"] = pipeRaceSuite }

type rstage struct {
	K   string `json:"k"`
	Lim int    `json:"lim"`
	New bool   `json:"new,omitempty"`
	F   int    `json:"f"`            // number of filters
	At  string `json:"at,omitempty"` // what goroutines that a filter starts do
	Who int    `json:"who,omitempty"`
}

type rcase struct {
	St    []rstage `json:"st"`
	NB    int      `json:"nb"`
	Known bool     `json:"known"`
	Ext   string   `json:"ext,omitempty"`  // what a goroutine that Prepare starts does
	Recv  string   `json:"recv,omitempty"` // what receivers do
	Pre   bool     `json:"pre,omitempty"`  // Err is called concurrently with Run
}

type rbatch struct{ n, sum int }

type rsource struct {
	r    *rrun
	n    int
	data *rbatch
}

func (s *rsource) Err() error { return nil }
func (s *rsource) Prepare(context.Context) int {
	s.r.spawn(s.r.c.Ext)
	if s.r.c.Known {
		return s.r.c.NB
	}
	return -1
}
func (s *rsource) Fetch(int) int {
	if s.n >= s.r.c.NB {
		return 0
	}
	s.data = &rbatch{n: s.n}
	s.n++
	return 1
}
func (s *rsource) Data() interface{} { return s.data }

type rrun struct {
	c    *rcase
	p    *pipeline.Pipeline
	done chan bool
	k    int
	seed int64
}

func (r *rrun) do(a string) {
	switch a {
	case "cancel":
		r.p.Cancel()
	case "err":
		r.p.SetErr(perr(1))
	case "ask":
		r.p.Err()
	}
}

// spawn starts a goroutine that does a, at any time.
func (r *rrun) spawn(a string) {
	if a == "" {
		return
	}
	r.k++
	n := int(r.seed>>uint(r.k%8)) & 15
	go func() {
		for i := 0; i < n; i++ {
			runtime.Gosched()
		}
		r.do(a)
		r.done <- true
	}()
}

func (c *rcase) fails() bool {
	b := c.Ext == "err" || c.Recv == "err"
	for _, st := range c.St {
		b = b || st.At == "err"
	}
	return b
}

func (c *rcase) calm() bool {
	b := (c.Ext == "" || c.Ext == "ask") && (c.Recv == "" || c.Recv == "ask")
	for _, st := range c.St {
		b = b && (st.At == "" || st.At == "ask")
	}
	return b
}

func runPipeRace(c *rcase, seed int64) {
	r := &rrun{c: c, p: &pipeline.Pipeline{}, done: make(chan bool, 100), seed: seed}
	r.p.Source(&rsource{r: r})
	fails := c.fails()
	var states []*[3]int
	for _, st := range c.St {
		var fs []pipeline.Filter
		st := st
		for j := 0; j < st.F; j++ {
			j := j
			state := new([3]int)
			states = append(states, state)
			fs = append(fs, func(p *pipeline.Pipeline, kind pipeline.NodeKind, size *int) (pipeline.Receiver, pipeline.Finalizer) {
				state[0]++
				*size = *size + 0
				if j == 0 {
					r.spawn(st.At)
				}
				seq := kind == pipeline.Ordered || kind == pipeline.Sequential || st.K == "ord" || st.K == "seq" || st.K == "strict"
				return func(q int, data interface{}) interface{} {
						b := data.(*rbatch)
						b.sum += j
						if seq {
							state[1]++
						}
						if st.Who == q+1 && j == 0 {
							r.do(c.Recv)
						}
						if q%3 == 1 { // passes on a new batch
							return &rbatch{n: b.n, sum: b.sum}
						}
						return b
					}, func() {
						if !fails {
							state[2] = state[1] + 1
						}
					}
			})
		}
		var node pipeline.Node
		switch {
		case st.K == "ord" && st.New:
			node = pipeline.NewNode(pipeline.Ordered, fs...)
		case st.K == "seq" && st.New:
			node = pipeline.NewNode(pipeline.Sequential, fs...)
		case st.K == "par" && st.New:
			node = pipeline.NewNode(pipeline.Parallel, fs...)
		case st.K == "ord":
			node = pipeline.Ord(fs...)
		case st.K == "seq":
			node = pipeline.Seq(fs...)
		case st.K == "par":
			node = pipeline.Par(fs...)
		case st.K == "strict":
			node = pipeline.StrictOrd(fs...)
		case st.K == "lpar":
			node = pipeline.LimitedPar(st.Lim, fs...)
		}
		r.p.Add(node)
	}
	if c.Pre {
		r.k++
		go func() {
			r.p.Err()
			r.done <- true
		}()
	}
	r.p.Run()
	if !fails {
		for _, s := range states {
			s[0] += s[1] + s[2]
		}
	}
	for ; r.k > 0; r.k-- {
		<-r.done
	}
}

func pipeRaceSuite() {
	n := 1500
	if R.tier == "thorough" {
		n = 10000
	}
	calm := R.props == "C16" || R.props == "C18" || R.props == "C20"
	for i := 0; i < n; i++ {
		R.Unit(func() {
			rng := R.rng
			c := &rcase{NB: rng.Intn(9), Known: rng.Intn(2) == 0, Pre: rng.Intn(6) == 0}
			kinds := []string{"par", "ord", "seq", "strict", "lpar"}
			var cfg []E
			for i, m := 0, 1+rng.Intn(4); i < m; i++ {
				st := rstage{K: kinds[rng.Intn(5)], Lim: 2 + rng.Intn(2), New: rng.Intn(2) == 0, F: rng.Intn(3), Who: rng.Intn(c.NB + 3)}
				if i == 0 && rng.Intn(2) == 0 {
					st.K = "par"
				}
				if rng.Intn(6) == 0 {
					st.At = "ask"
				}
				cfg = append(cfg, E{"k": st.K, "lim": st.Lim})
				c.St = append(c.St, st)
			}
			if !calm {
				a := []string{"cancel", "err"}[rng.Intn(2)]
				switch rng.Intn(3) {
				case 0:
					c.Ext = a
				case 1:
					c.Recv = a
				case 2:
					c.St[rng.Intn(len(c.St))].At = a
				}
				if c.Ext == "" && rng.Intn(3) == 0 {
					c.Ext = "ask"
				}
			}
			desc, _ := json.Marshal(c)
			R.Cur(string(desc), E{"nodes": cfg, "flt": []E{}})
			runtime.GOMAXPROCS(4)
			for rep := 0; rep < 4; rep++ {
				runPipeRace(c, rng.Int63())
				if raced() {
					R.Trace([]E{{"e": "Race", "calm": c.calm()}})
					return
				}
			}
			R.Trace([]E{})
		})
	}
}

var _ = rand.Int
