package main

// Work distribution: every worker owns a machine and a solver; a work item is
// a decision prefix with a model of its path condition.

import (
	"fmt"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

type Item struct {
	pre   []Decision
	model []uint64
	fresh bool
}

type Violation struct {
	Harness string         `json:"harness"`
	Kind    string         `json:"kind"`
	Msg     string         `json:"msg"`
	Inputs  []RecIn        `json:"inputs"`
	Params  map[string]int `json:"params"`
	Obs     []string       `json:"obs,omitempty"`
	Asserts int            `json:"asserts,omitempty"`
}

type RecIn struct {
	K string `json:"k"`
	V uint64 `json:"v"`
}

type Result struct {
	Name       string
	Stats      Stats
	Queries    int
	Sat, Unsat int
	Unk        int
	SolverTime time.Duration
	Wall       time.Duration
	Viol       []*Violation
	Notes      map[string]int
	Samples    []*Violation // completed paths to replay natively
	Truncated  bool
	Left       int
	CrossN     int
	CrossTime  time.Duration
	CrossUnk   int
	Params     map[string]int
}

type sharedPool struct {
	mu    sync.Mutex
	cond  *sync.Cond
	items []*Item
	idle  int
	idleN atomic.Int32
	n     int
	done  bool
}

func (p *sharedPool) put(it *Item) {
	p.mu.Lock()
	p.items = append(p.items, it)
	p.mu.Unlock()
	p.cond.Signal()
}

// get blocks until an item is available or all workers are idle.
func (p *sharedPool) get() *Item {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.idle++
	p.idleN.Add(1)
	for {
		if p.done {
			return nil
		}
		if n := len(p.items); n > 0 {
			it := p.items[0]
			p.items = p.items[1:]
			p.idle--
			p.idleN.Add(-1)
			return it
		}
		if p.idle == p.n {
			p.done = true
			p.cond.Broadcast()
			return nil
		}
		p.cond.Wait()
	}
}

type Options struct {
	workers  int
	fuel     int64
	depth    int
	queryMs  int
	deadline time.Time
	params   map[string]int
	maxViol  int
	seed     int64
	nsamples int
	crossMax int
	verbose  bool
	thorough bool
	known    func(h, kind, msg string) bool
}

type Explorer struct {
	sh   *Shared
	opt  Options
	mach []*Machine
	sols []*Solver
}

func NewExplorer(sh *Shared, opt Options) *Explorer {
	e := &Explorer{sh: sh, opt: opt}
	for i := 0; i < opt.workers; i++ {
		s := NewSolver(opt.queryMs)
		e.sols = append(e.sols, s)
		e.mach = append(e.mach, &Machine{sh: sh, tb: NewTermTable(), sol: s})
	}
	return e
}
func (e *Explorer) Close() {
	for _, s := range e.sols {
		s.Close()
	}
}

func (e *Explorer) Run(name string) *Result {
	t0 := time.Now()
	pool := &sharedPool{n: e.opt.workers}
	pool.cond = sync.NewCond(&pool.mu)
	pool.items = []*Item{{fresh: true}}
	res := &Result{Name: name, Notes: map[string]int{}}
	var mu sync.Mutex
	var stopped atomic.Bool
	seen := map[string]bool{}
	entry := e.sh.fn(e.sh.P.hpkg.Func(name))
	initFn := e.sh.fn(e.sh.P.hpkg.Func("init"))
	var wg sync.WaitGroup
	for w := 0; w < e.opt.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			m := e.mach[w]
			sol := e.sols[w]
			q0, s0, u0, k0, w0 := sol.queries, sol.sat, sol.unsat, sol.unk, sol.wall
			m.stats = Stats{}
			m.params = map[string]int{}
			for k, v := range e.opt.params {
				m.params[k] = v
			}
			m.depthMax = e.opt.depth
			m.thorough = e.opt.thorough
			rng := rand.New(rand.NewSource(e.opt.seed + int64(w)*7919))
			m.stop = func() bool {
				if stopped.Load() {
					return true
				}
				if !e.opt.deadline.IsZero() && time.Now().After(e.opt.deadline) {
					return true
				}
				return false
			}
			var local []*Item
			m.fork = func(d []Decision, model []uint64) {
				local = append(local, &Item{pre: d, model: model})
			}
			m.violated = func(kind, msg string, model []uint64) {
				v := m.record(name, kind, msg, model)
				mu.Lock()
				defer mu.Unlock()
				if !seen[kind+msg] {
					seen[kind+msg] = true
					res.Viol = append(res.Viol, v)
				}
				n := 0
				for _, x := range res.Viol {
					if e.opt.known == nil || !e.opt.known(x.Harness, x.Kind, x.Msg) {
						n++
					}
				}
				if n >= e.opt.maxViol {
					stopped.Store(true)
				}
			}
			cs := newCross(sol, m.tb, e.opt.crossMax, rng)
			var samples []*Violation
			notes := map[string]int{}
			left := 0
			for {
				var it *Item
				if n := len(local); n > 0 {
					it = local[n-1]
					local = local[:n-1]
				} else if it = pool.get(); it == nil {
					break
				}
				if m.stop() {
					left += 1 + len(local)
					local = nil
					continue
				}
				end := m.runPath(it, initFn, entry, e.opt.fuel)
				m.stats.Paths++
				switch end.kind {
				case "":
					m.stats.Completed++
					// reservoir sample of completed paths
					if e.opt.nsamples > 0 {
						if len(samples) < e.opt.nsamples {
							samples = append(samples, m.record(name, "sample", "", m.model))
						} else if k := rng.Int63n(m.stats.Completed); k < int64(e.opt.nsamples) {
							samples[k] = m.record(name, "sample", "", m.model)
						}
					}
				case "assume":
					m.stats.Assumed++
				case "violation":
				case "stop":
					left++
				case "fuel":
					m.stats.Fuel++
					m.violated("hang", "no termination within the step/recursion limit ("+end.msg+")", m.model)
				case "unsupported":
					m.stats.Unsupported++
					notes["unsupported: "+end.msg]++
				case "unknown":
					notes["undecided: "+end.msg]++
				}
				// share work with idle workers
				if len(local) > 1 && pool.idleN.Load() > 0 {
					pool.mu.Lock()
					k := pool.idle - len(pool.items)
					for k > 0 && len(local) > 1 {
						pool.items = append(pool.items, local[0])
						local = local[1:]
						k--
					}
					pool.mu.Unlock()
					pool.cond.Broadcast()
				}
				if m.tb.next > 3_000_000 {
					m.tb.reset()
					sol.Reset()
				}
			}
			cs.finish()
			mu.Lock()
			defer mu.Unlock()
			res.Left += left
			s := m.stats
			res.Stats.Paths += s.Paths
			res.Stats.Completed += s.Completed
			res.Stats.Assumed += s.Assumed
			res.Stats.Unsupported += s.Unsupported
			res.Stats.Fuel += s.Fuel
			res.Stats.Unknown += s.Unknown
			res.Stats.Forks += s.Forks
			res.Stats.Asserts += s.Asserts
			res.Stats.Steps += s.Steps
			res.Queries += sol.queries - q0
			res.Sat += sol.sat - s0
			res.Unsat += sol.unsat - u0
			res.Unk += sol.unk - k0
			res.SolverTime += sol.wall - w0
			res.Samples = append(res.Samples, samples...)
			res.CrossN += cs.n
			res.CrossUnk += cs.unk
			res.CrossTime += cs.wall
			for k, v := range notes {
				res.Notes[k] += v
			}
			for k, v := range m.params {
				e.opt.params[k] = v
			}
		}(w)
	}
	wg.Wait()
	res.Wall = time.Since(t0)
	res.Truncated = res.Left > 0 && len(res.Viol) == 0
	if len(res.Samples) > e.opt.nsamples {
		rng := rand.New(rand.NewSource(e.opt.seed))
		rng.Shuffle(len(res.Samples), func(i, j int) { res.Samples[i], res.Samples[j] = res.Samples[j], res.Samples[i] })
		res.Samples = res.Samples[:e.opt.nsamples]
	}
	return res
}

func (tb *TermTable) reset() {
	n := NewTermTable()
	*tb = *n
}

func (m *Machine) record(name, kind, msg string, model []uint64) *Violation {
	v := &Violation{Harness: name, Kind: kind, Msg: msg, Params: map[string]int{}, Asserts: m.nasserts}
	for k, x := range m.params {
		v.Params[k] = x
	}
	m.tb.beginEval()
	m.evalOK = false
	for _, in := range m.inputs {
		x := in.val
		if in.term != nil {
			x = m.tb.ev(in.term, model)
		}
		v.Inputs = append(v.Inputs, RecIn{in.kind, x})
	}
	if kind == "sample" {
		for _, o := range m.obs {
			v.Obs = append(v.Obs, m.obsText(o, model))
		}
	}
	return v
}

func (m *Machine) obsText(o obsRec, model []uint64) string {
	ev := func(v Value, signed bool) uint64 {
		if v.P == nil {
			return v.N
		}
		t := v.P.(*Term)
		x := m.tb.Eval(t, model)
		if signed {
			return uint64(sx(x, t.w))
		}
		return x
	}
	switch o.k {
	case 'i':
		return fmt.Sprintf("i%d", int64(ev(o.v, true)))
	case 'u':
		return fmt.Sprintf("u%d", ev(o.v, false))
	case 'b':
		return fmt.Sprintf("b%d", ev(o.v, false))
	case 's':
		b := []byte{}
		for _, c := range strBytes(o.v) {
			b = append(b, byte(ev(c, false)))
		}
		return fmt.Sprintf("s%x", b)
	}
	return "?"
}

// runPath executes one path from the start along it.pre.
func (m *Machine) runPath(it *Item, initFn, entry *Fn, fuel int64) (end pathAbort) {
	m.pc = m.pc[:0]
	m.known = map[*Term]bool{}
	m.model = append([]uint64(nil), it.model...)
	m.vars = m.vars[:0]
	m.prefix = it.pre
	m.di = 0
	m.decs = nil
	m.inputs = nil
	m.asserts = nil
	m.nasserts = 0
	m.obs = nil
	m.evalOK = false
	m.shaTab = nil
	m.hbClocks = nil
	m.objID = 0
	m.resetGlobals()
	m.fuel = 1 << 50
	defer func() {
		m.stats.Steps += fuel - m.fuel
		m.stats.Asserts += int64(m.nasserts)
		if r := recover(); r != nil {
			if a, ok := r.(pathAbort); ok {
				end = a
				if a.kind == "unsupported" || a.kind == "fuel" {
					func() {
						defer func() {
							if r := recover(); r != nil {
								if b, ok := r.(pathAbort); ok {
									end = b
									return
								}
								panic(r)
							}
						}()
						m.flushAsserts()
					}()
				}
				return
			}
			if _, ok := r.(targetPanic); ok {
				fatal("stray target panic")
			}
			fmt.Fprintf(os.Stderr, "engine crash in harness %s (frame %s)\n", entry.name, m.where())
			panic(r)
		}
	}()
	m.booting = true
	m.runMain(initFn)
	m.booting = false
	m.fuel = fuel
	m.runMain(entry)
	if m.di < len(m.prefix) {
		fatal("replay divergence: path ended before its prefix was consumed")
	}
	m.flushAsserts()
	return pathAbort{}
}

func (m *Machine) where() string {
	if m.cur == nil || len(m.cur.frames) == 0 {
		return "?"
	}
	s := ""
	for i := len(m.cur.frames) - 1; i >= 0 && i >= len(m.cur.frames)-6; i-- {
		f := m.cur.frames[i]
		s += f.fn.name
		if int(f.pc) > 0 && int(f.pc) <= len(f.fn.code) {
			s += "@" + m.sh.P.fset.Position(f.fn.code[f.pc-1].pos).String()
		}
		s += " < "
	}
	return s
}
