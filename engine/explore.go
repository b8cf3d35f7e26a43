package main

import (
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type workItem struct {
	prefix []uint64
	model  []uint64
}

// PathSample is a completed path with one model, for validation against the compiled code.
type PathSample struct {
	Inputs []Input
	Vals   []uint64
	Obs    []string
	Sched  []int
}

type HarnessResult struct {
	Name                                string
	Bound                               string
	Paths                               int
	Forks                               int
	Steps                               int
	AssumeEnd                           int
	Budget                              int
	Unsupported                         int
	UnsupportedMsgs                     map[string]int
	Asserts, AssertConst, AssertQueries int
	Queries, Sat, Unsat, Unknown        int
	SolverTime                          time.Duration
	DomDecided, Audits                  int
	Reached                             map[string]bool
	Wall                                time.Duration
	Complete                            bool
	Left                                int
	Samples                             []PathSample
	Violations                          []*Violation
	MaxDepth                            int
}

// checkpoint prepares a machine: package initialisers and Setup, run once.
func (m *Machine) prepare() (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case *pathEnd:
				err = fmt.Errorf("setup: %s: %s [%s]", r.why, r.msg, m.callStack())
			case *targetPanic:
				err = fmt.Errorf("setup panics: %s [%s]", r.msg, r.where+m.callStack())
			default:
				panic(r)
			}
		}
	}()
	m.budget = 1 << 40
	m.epoch = 1
	for g, e := range m.P.embeds {
		p := m.global(m.P.globalIndex(g))
		if e.str {
			*p = mkStr(string(e.data))
		} else {
			*p = goBytes(e.data)
		}
	}
	if f := m.P.Main.Func("init"); f != nil {
		m.callFn(m.P.fnOf(f), nil, nil)
	}
	if f := m.P.Main.Func("Setup"); f != nil {
		m.callFn(m.P.fnOf(f), nil, nil)
	}
	m.epoch = 2
	return nil
}

func (m *Machine) runPath(h *Harness, it workItem, budget int) (why, msg string) {
	m.prefix, m.pos, m.trail = it.prefix, 0, make([]uint64, 0, len(it.prefix)+16)
	m.model = it.model
	m.nvars = 0
	m.vars, m.dom, m.inMul, m.multi = m.vars[:0], m.dom[:0], m.inMul[:0], m.multi[:0]
	m.uf, m.dis = m.uf[:0], m.dis[:0]
	clear(m.known)
	clear(m.refuted)
	m.inputs, m.obs = nil, nil
	m.steps, m.budget = 0, budget
	m.depth, m.spec, m.pureDepth, m.mapOrder = 0, 0, 0, false
	m.lossy = false
	m.chunk, m.sp = 0, 0
	m.where = m.where[:0]
	m.goState = nil
	clear(m.locks)
	clear(m.ptrCells)
	m.epoch++
	m.journaling = true
	m.curHarness = h
	why = "ok"
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case *pathEnd:
				why, msg = r.why, r.msg
				if why == "unsupported" {
					msg += " [" + m.callStack() + "]"
				}
			case *targetPanic:
				why, msg = "panic", r.msg+" at "+r.where+m.callStack()
			default:
				panic(fmt.Sprintf("%v [%s]", r, m.callStack()))
			}
		}
		m.killThreads()
		m.stats.Steps += m.steps
		m.finish(why, msg)
		m.rollback()
		m.journaling = false
	}()
	m.callFn(m.P.fnOf(h.Fn), nil, nil)
	return
}

// finish records how a path ended, before its effects are rolled back.
func (m *Machine) finish(why, msg string) {
	m.stats.Paths++
	if why == "ok" {
		m.last = m.sample()
	}
	switch why {
	case "assume":
		m.stats.AssumeEnd++
	case "unsupported":
		m.noteUnsupported(msg)
	case "budget":
		m.stats.Budget++
		m.violation("does not terminate ("+msg+")", m.model)
		m.violations[len(m.violations)-1].Hang = true
	case "panic":
		m.violation("panic: "+msg, m.model)
		m.violations[len(m.violations)-1].Panic = true
	}
}

func (m *Machine) sample() PathSample {
	s := PathSample{Inputs: append([]Input(nil), m.inputs...)}
	if m.goState != nil {
		s.Sched = append(s.Sched, m.goState.order...)
	}
	for _, in := range m.inputs {
		if in.E != nil {
			s.Vals = append(s.Vals, m.x.eval(in.E, m.model))
		} else {
			s.Vals = append(s.Vals, in.N)
		}
	}
	for _, o := range m.obs {
		for i, v := range o.vals {
			s.Obs = append(s.Obs, o.label+"="+m.evalShow(o.tis[i], v))
		}
	}
	return s
}

// evalShow renders a value under the model as the native vs.Observe does.
func (m *Machine) evalShow(t *TI, v Value) string {
	switch t.kind {
	case KString:
		b := make([]byte, strLen(v))
		for i := range b {
			b[i] = byte(m.x.eval(m.expr(strAt(v, i), 8), m.model))
		}
		return fmt.Sprintf("%q", b)
	case KInt:
		n := m.x.eval(m.expr(v, t.w), m.model)
		if t.signed {
			return fmt.Sprint(sext(n, t.w))
		}
		return fmt.Sprint(n)
	case KBool:
		return fmt.Sprint(m.x.eval(m.expr(v, 0), m.model) == 1)
	}
	return "?"
}

type explorer struct {
	mu     sync.Mutex
	cond   *sync.Cond
	stack  []workItem
	active int
	stop   bool
}

// explore runs the harness over all its paths on the given machines.
func explore(ms []*Machine, h *Harness, deadline time.Time, budget, nSamples int, seed int64, confirm func(v *Violation) bool) *HarnessResult {
	res := &HarnessResult{Name: h.Name, Bound: h.Doc, UnsupportedMsgs: map[string]int{}, Reached: map[string]bool{}}
	e := &explorer{}
	e.cond = sync.NewCond(&e.mu)
	e.stack = []workItem{{}}
	t0 := time.Now()
	var wg sync.WaitGroup
	type qs struct {
		q, s, u, k int
		t          time.Duration
	}
	before := map[*Machine]qs{}
	rng := rand.New(rand.NewSource(seed))
	seen := 0
	spurious := 0
	for _, m := range ms {
		before[m] = qs{m.s.Queries, m.s.Sat, m.s.Unsat, m.s.Unknown, m.s.Time}
		m.stats = Stats{UnsupportedMsgs: map[string]int{}}
		m.asserts, m.assertsConst, m.assertQueries = 0, 0, 0
		m.reached = map[string]bool{}
		m.violations = nil
		m := m
		m.emit = func(prefix, model []uint64) {
			e.mu.Lock()
			e.stack = append(e.stack, workItem{prefix, model})
			e.cond.Signal()
			e.mu.Unlock()
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				e.mu.Lock()
				for len(e.stack) == 0 && e.active > 0 && !e.stop {
					e.cond.Wait()
				}
				if e.stop || len(e.stack) == 0 {
					e.cond.Broadcast()
					e.mu.Unlock()
					return
				}
				if time.Now().After(deadline) {
					e.stop = true
					e.cond.Broadcast()
					e.mu.Unlock()
					return
				}
				it := e.stack[len(e.stack)-1]
				e.stack = e.stack[:len(e.stack)-1]
				e.active++
				e.mu.Unlock()

				nv := len(m.violations)
				why, msg := m.runPathSample(h, it, budget)
				_ = msg
				if debugPaths {
					fmt.Fprintf(os.Stderr, "path %s %s trail=%v\n", why, msg, m.trail)
				}

				e.mu.Lock()
				e.active--
				if len(m.trail) > res.MaxDepth {
					res.MaxDepth = len(m.trail)
				}
				if why == "ok" && nSamples > 0 {
					seen++
					if len(res.Samples) < nSamples {
						res.Samples = append(res.Samples, m.last)
					} else if k := rng.Intn(seen); k < nSamples {
						res.Samples[k] = m.last
					}
				}
				nvs := m.violations[nv:]
				if len(nvs) > 0 && !e.stop {
					e.mu.Unlock()
					for _, v := range nvs {
						ok := confirm(v)
						e.mu.Lock()
						if ok {
							res.Violations = append(res.Violations, v)
							e.stop = true
						} else {
							spurious++
							res.UnsupportedMsgs["a counterexample did not reproduce natively: "+v.Msg]++
							res.Unsupported++
							if spurious > 50 {
								e.stop = true
							}
						}
						e.mu.Unlock()
						if ok {
							break
						}
					}
					e.mu.Lock()
				}
				if e.active == 0 && len(e.stack) == 0 || e.stop {
					e.cond.Broadcast()
				}
				e.mu.Unlock()
			}
		}()
	}
	wg.Wait()
	for _, m := range ms {
		b := before[m]
		res.Queries += m.s.Queries - b.q
		res.Sat += m.s.Sat - b.s
		res.Unsat += m.s.Unsat - b.u
		res.Unknown += m.s.Unknown - b.k
		res.SolverTime += m.s.Time - b.t
		res.Paths += m.stats.Paths
		res.Forks += m.stats.Forks
		res.Steps += m.stats.Steps
		res.AssumeEnd += m.stats.AssumeEnd
		res.Budget += m.stats.Budget
		res.Unsupported += m.stats.Unsupported
		res.DomDecided += m.stats.DomDecided
		res.Audits += m.stats.Audits
		for k, v := range m.stats.UnsupportedMsgs {
			res.UnsupportedMsgs[k] += v
		}
		res.Asserts += m.asserts
		res.AssertConst += m.assertsConst
		res.AssertQueries += m.assertQueries
		for k := range m.reached {
			res.Reached[k] = true
		}
		// free what the paths left behind
		m.x = newExprs()
		m.s.newGen()
	}
	res.Left = len(e.stack)
	res.Complete = !e.stop && len(e.stack) == 0 && res.Unsupported == 0
	res.Wall = time.Since(t0)
	return res
}

var debugPaths = false

func (m *Machine) runPathSample(h *Harness, it workItem, budget int) (string, string) {
	return m.runPath(h, it, budget)
}

func fnList(ms []*Machine) []string {
	set := map[string]bool{}
	for _, m := range ms {
		for f := range m.fnSeen {
			if f.f.Synthetic == "" {
				set[strings.TrimPrefix(strings.ReplaceAll(f.name, m.P.Module+"/", ""), m.P.Module)] = true
			}
		}
	}
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var _ ssa.Value
