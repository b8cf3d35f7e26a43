package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"
	"time"
)

// Input is one nondeterministic value a path asked for.
type Input struct {
	Kind string // byte, int, bool, choose
	W    uint8
	E    *Expr
	N    uint64 // the choice
}

type pathEnd struct {
	why string // ok, assume, violation, unsupported, budget, exit
	msg string
}

type targetPanic struct {
	v     Value
	msg   string
	where string
}

type jrec struct {
	p *Value
	v Value
}

type Observation struct {
	label string
	vals  []Value
	tis   []*TI
}

type Violation struct {
	Harness string
	Msg     string
	Model   []uint64
	Inputs  []Input
	Vals    []uint64
	Hang    bool
	Panic   bool
	Cond    string
	MapOrd  bool
	Sched   []int
}

// Machine executes harness paths; each worker has its own.
type Machine struct {
	P       *Program
	x       *Exprs
	s       *Solver
	globals map[int]*Value
	epoch   uint64

	// path state
	prefix                               []uint64
	pos                                  int
	trail                                []uint64
	model                                []uint64
	nvars                                int
	vars                                 []*Expr
	dom                                  []ByteSet // domain of 8-bit variables
	inMul                                []bool    // variable occurs in a constraint over several variables (or a wide one)
	multi                                []*Expr
	uf                                   []int          // byte variables known to be equal
	dis                                  [][2]int       // byte variables known to differ
	known                                map[*Expr]bool // conditions that are part of the path condition, with their truth
	refuted                              map[*Expr]bool // conditions z3 found to contradict the path condition
	inputs                               []Input
	obs                                  []Observation
	steps                                int
	budget                               int
	journal                              []jrec
	jfun                                 []func()
	journaling                           bool
	depth                                int
	mapOrder                             bool
	spec                                 int
	regStack                             [][]Value
	chunk                                int
	sp                                   int
	unsupported                          string
	where                                []*Fn
	reached                              map[string]bool
	asserts, assertsConst, assertQueries int
	curHarness                           *Harness
	deferTo                              *Frame
	emit                                 func(prefix []uint64, model []uint64)
	violations                           []*Violation
	rng                                  *rand.Rand
	audit                                int
	stats                                Stats
	fnSeen                               map[*Fn]bool
	goState                              *sched
	locks                                map[*Value]*lockState
	onces                                map[*Value]int
	stacks                               [][][]Value
	ptrCells                             map[*Value][]Value
	pureDepth                            int
	noPure                               bool
	lossy                                bool
	last                                 PathSample
	deadline                             time.Time
	nextDeadlineCheck                    int
	stopped                              func() bool
}

type Stats struct {
	Paths, Forks, Steps, AssumeEnd, Unsupported, Budget, Violations int
	DomDecided, Audits, AuditBad                                    int
	UnsupportedMsgs                                                 map[string]int
}

func newMachine(p *Program) (*Machine, error) {
	s, err := newSolver()
	if err != nil {
		return nil, err
	}
	m := &Machine{P: p, x: newExprs(), s: s, globals: map[int]*Value{}, reached: map[string]bool{}, fnSeen: map[*Fn]bool{}, known: map[*Expr]bool{}, refuted: map[*Expr]bool{}}
	m.stats.UnsupportedMsgs = map[string]int{}
	m.onces = map[*Value]int{}
	m.locks, m.ptrCells = map[*Value]*lockState{}, map[*Value][]Value{}
	m.rng = rand.New(rand.NewSource(int64(p.Seed)))
	m.regStack = [][]Value{make([]Value, 1<<16)}
	return m, nil
}

func (m *Machine) fail(format string, a ...any) {
	panic(&pathEnd{"unsupported", fmt.Sprintf(format, a...)})
}

func (m *Machine) throw(msg string) {
	panic(&targetPanic{v: Value{X: &Iface{m.P.tString, mkStr("runtime error: " + msg)}}, msg: "runtime error: " + msg})
}

// ---- memory ----

func (m *Machine) store(p *Value, v Value) {
	if a, ok := v.X.(*Agg); ok {
		if d, ok := p.X.(*Agg); ok && len(d.f) == len(a.f) {
			if d == a {
				return
			}
			for i := range a.f {
				m.store(&d.f[i], a.f[i])
			}
			return
		}
		v = Value{X: copyAgg(a)}
	}
	if m.journaling {
		m.journal = append(m.journal, jrec{p, *p})
	}
	*p = v
}

func (m *Machine) rollback() {
	for i := len(m.journal) - 1; i >= 0; i-- {
		*m.journal[i].p = m.journal[i].v
	}
	for i := range m.journal {
		m.journal[i] = jrec{}
	}
	m.journal = m.journal[:0]
	for i := len(m.jfun) - 1; i >= 0; i-- {
		m.jfun[i]()
	}
	m.jfun = m.jfun[:0]
}

func (m *Machine) touchMap(mv *MapV) {
	if mv.epoch == m.epoch || !m.journaling {
		return
	}
	ents := append([]mapEnt(nil), mv.ents...)
	idx := make(map[any]int, len(mv.idx))
	for k, v := range mv.idx {
		idx[k] = v
	}
	nsym, live, epoch := mv.nsym, mv.live, mv.epoch
	m.jfun = append(m.jfun, func() { mv.ents, mv.idx, mv.nsym, mv.live, mv.epoch = ents, idx, nsym, live, epoch })
	mv.epoch = m.epoch
}

func (m *Machine) regs(n int) []Value {
	c := m.regStack[m.chunk]
	if m.sp+n > len(c) {
		m.chunk++
		if m.chunk == len(m.regStack) {
			sz := 1 << 16
			if n > sz {
				sz = n
			}
			m.regStack = append(m.regStack, make([]Value, sz))
		}
		m.sp = 0
		c = m.regStack[m.chunk]
	}
	r := c[m.sp : m.sp+n : m.sp+n]
	m.sp += n
	return r
}

// ---- symbolic values ----

func (m *Machine) expr(v Value, w uint8) *Expr {
	if e, ok := v.X.(*Expr); ok {
		return e
	}
	return m.x.konst(v.N, w)
}

func mkVal(e *Expr) Value {
	if e.op == OConst {
		return Value{N: e.val}
	}
	return Value{X: e}
}

func (m *Machine) newVar(kind string, w uint8) Value {
	v := m.x.variable(m.nvars, w)
	m.nvars++
	m.vars = append(m.vars, v)
	m.dom = append(m.dom, fullSet)
	m.inMul = append(m.inMul, false)
	m.uf = append(m.uf, len(m.uf))
	for len(m.model) < m.nvars {
		m.model = append(m.model, 0)
	}
	m.inputs = append(m.inputs, Input{Kind: kind, W: w, E: v})
	return Value{X: v}
}

// quick decides c from the byte domains alone if it can: 0 infeasible, 1 feasible, 2 implied, -1 do not know.
func (m *Machine) quick(c *Expr) int {
	if c.op != OConst && c.op != OInSet && len(m.known) > 0 {
		if v, ok := m.known[c]; ok {
			if v {
				return 2
			}
			return 0
		}
	}
	switch c.op {
	case OConst:
		if c.val == 1 {
			return 2
		}
		return 0
	case OInSet:
		d := m.dom[c.a.val]
		i := d.and(c.set)
		if i.empty() {
			return 0
		}
		if i == d {
			return 2
		}
		if !m.inMul[c.a.val] {
			return 1
		}
	case OBAnd:
		a, b := m.quick(c.a), m.quick(c.b)
		if a == 0 || b == 0 {
			return 0
		}
		if a == 2 && b == 2 {
			return 2
		}
		if a >= 1 && b >= 1 && (a == 2 || b == 2) {
			return 1
		}
	case OBOr:
		a, b := m.quick(c.a), m.quick(c.b)
		if a == 2 || b == 2 {
			return 2
		}
		if a == 0 && b == 0 {
			return 0
		}
		if a == 1 || b == 1 {
			return 1
		}
	case OBNot:
		switch m.quick(c.a) {
		case 2:
			return 0
		case 0:
			return 2
		}
	case OEq:
		// two byte variables with disjoint domains, or known to be equal or different
		if c.a.op == OVar && c.b.op == OVar && c.a.w == 8 {
			a, b := m.find(int(c.a.val)), m.find(int(c.b.val))
			if a == b {
				return 2
			}
			for _, d := range m.dis {
				x, y := m.find(d[0]), m.find(d[1])
				if x == a && y == b || x == b && y == a {
					return 0
				}
			}
			if m.dom[c.a.val].and(m.dom[c.b.val]).empty() {
				return 0
			}
		}
	}
	return -1
}

func (m *Machine) find(i int) int {
	for m.uf[i] != i {
		i = m.uf[i]
	}
	return i
}

func (m *Machine) addConstraint(c *Expr) {
	switch c.op {
	case OConst:
		return
	case OBAnd:
		m.addConstraint(c.a)
		m.addConstraint(c.b)
		return
	case OInSet:
		m.dom[c.a.val] = m.dom[c.a.val].and(c.set)
		return
	case OBNot:
		if c.a.op == OBOr {
			m.addConstraint(m.x.not(c.a.a))
			m.addConstraint(m.x.not(c.a.b))
			return
		}
		if e := c.a; e.op == OEq && e.a.op == OVar && e.b.op == OVar && e.a.w == 8 && m.quick(c) != 2 {
			m.dis = append(m.dis, [2]int{int(e.a.val), int(e.b.val)})
			m.addMulti(c)
			return
		}
	case OEq:
		// equality of two byte variables narrows both domains
		if c.a.op == OVar && c.b.op == OVar && c.a.w == 8 {
			d := m.dom[c.a.val].and(m.dom[c.b.val])
			if m.quick(c) == 2 {
				return
			}
			m.dom[c.a.val], m.dom[c.b.val] = d, d
			m.uf[m.find(int(c.a.val))] = m.find(int(c.b.val))
			m.addMulti(c)
			return
		}
	}
	// simplify away what the domains already imply
	if m.quick(c) == 2 {
		return
	}
	m.addMulti(c)
}

func (m *Machine) addMulti(c *Expr) {
	for _, p := range m.multi {
		if p == c {
			return
		}
	}
	m.multi = append(m.multi, c)
	m.known[c] = true
	m.known[m.x.not(c)] = false
	for _, v := range c.vars {
		m.inMul[v.val] = true
	}
}

// relevant gives the constraints connected to the variables of cs, and those variables.
func (m *Machine) relevant(cs ...*Expr) ([]*Expr, []*Expr) {
	seen := make([]bool, m.nvars)
	var vars []*Expr
	add := func(vs []*Expr) bool {
		ch := false
		for _, v := range vs {
			if !seen[v.val] {
				seen[v.val] = true
				vars = append(vars, v)
				ch = true
			}
		}
		return ch
	}
	for _, c := range cs {
		add(c.vars)
	}
	used := make([]bool, len(m.multi))
	var out []*Expr
	for ch := true; ch; {
		ch = false
		for i, c := range m.multi {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range c.vars {
				if seen[v.val] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				if add(c.vars) {
					ch = true
				}
			}
		}
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].val < vars[j].val })
	for _, v := range vars {
		if v.w == 8 && !m.dom[v.val].full() {
			out = append(out, m.x.inSet(v, m.dom[v.val]))
		}
	}
	return out, vars
}

// solve looks for a model of the path condition and c. The model extends the current one.
func (m *Machine) solve(c *Expr) (result, []uint64) {
	rel, vars := m.relevant(c)
	res, vals := m.s.check(append(rel, c), vars)
	if res != rSat {
		return res, nil
	}
	model := append([]uint64(nil), m.model...)
	for i, v := range vars {
		model[v.val] = vals[i]
	}
	return rSat, model
}

// feasible decides whether c can hold on this path, with a model.
func (m *Machine) feasible(c *Expr) (result, []uint64) {
	q := m.quick(c)
	if q == 0 {
		m.auditDomain(c, rUnsat)
		return rUnsat, nil
	}
	if c.op == OInSet && q == 1 && !m.inMul[c.a.val] {
		model := append([]uint64(nil), m.model...)
		model[c.a.val] = m.dom[c.a.val].and(c.set).min()
		m.stats.DomDecided++
		m.auditDomain(c, rSat)
		return rSat, model
	}
	if m.refuted[c] {
		return rUnsat, nil
	}
	res, model := m.solve(c)
	if res == rUnsat {
		m.refuted[c] = true
	}
	return res, model
}

// auditDomain has z3 confirm a random sample of the decisions made from byte domains.
func (m *Machine) auditDomain(c *Expr, want result) {
	m.audit++
	if m.rng.Intn(256) != 0 || c.op == OConst {
		return
	}
	res, _ := m.solve(c)
	m.stats.Audits++
	if res != want && res != rUnknown {
		m.stats.AuditBad++
		m.fail("domain decision disagrees with z3")
	}
}

// fork picks one of the mutually exclusive, exhaustive guards.
func (m *Machine) fork(guards []*Expr) int {
	// what the domains rule out is not a choice
	cand := -1
	n := 0
	for i, g := range guards {
		q := m.quick(g)
		if q == 2 {
			return i
		}
		if q != 0 {
			cand = i
			n++
		}
	}
	if n == 1 {
		m.addConstraint(guards[cand])
		return cand
	}
	if m.spec > 0 {
		panic("fork in speculation")
	}
	if m.pos < len(m.prefix) {
		d := int(m.prefix[m.pos])
		m.pos++
		if d >= len(guards) {
			m.fail("replay divergence")
		}
		m.trail = append(m.trail, uint64(d))
		m.addConstraint(guards[d])
		return d
	}
	cur := -1
	for i, g := range guards {
		if m.x.eval(g, m.model) == 1 {
			cur = i
			break
		}
	}
	if cur < 0 {
		m.fail("internal: no guard holds in the model")
	}
	for i := len(guards) - 1; i >= 0; i-- {
		if i == cur || guards[i].op == OConst && guards[i].val == 0 {
			continue
		}
		res, model := m.feasible(guards[i])
		switch res {
		case rSat:
			m.stats.Forks++
			if forkProf != nil {
				m.noteFork()
			}
			p := make([]uint64, len(m.trail)+1)
			copy(p, m.trail)
			p[len(m.trail)] = uint64(i)
			m.emit(p, model)
		case rUnknown:
			m.noteUnsupported("solver gave no answer")
		}
	}
	m.trail = append(m.trail, uint64(cur))
	m.pos++
	m.prefix = m.trail
	m.addConstraint(guards[cur])
	return cur
}

func (m *Machine) noteUnsupported(msg string) {
	m.stats.UnsupportedMsgs[msg]++
	m.stats.Unsupported++
}

func (m *Machine) branch(c *Expr) bool {
	switch m.quick(c) {
	case 0:
		return false
	case 2:
		return true
	}
	return m.fork([]*Expr{c, m.x.not(c)}) == 0
}

func (m *Machine) truth(v Value) bool {
	if e, ok := v.X.(*Expr); ok {
		return m.branch(e)
	}
	return v.N != 0
}

// choose is a decision without a variable.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.pos < len(m.prefix) {
		d := int(m.prefix[m.pos])
		m.pos++
		m.trail = append(m.trail, uint64(d))
		return d
	}
	for i := n - 1; i > 0; i-- {
		p := make([]uint64, len(m.trail)+1)
		copy(p, m.trail)
		p[len(m.trail)] = uint64(i)
		m.stats.Forks++
		m.emit(p, append([]uint64(nil), m.model...))
	}
	m.trail = append(m.trail, 0)
	m.pos++
	m.prefix = m.trail
	return 0
}

// concretize forks on the value of e.
func (m *Machine) concretize(v Value, w uint8) uint64 {
	e, ok := v.X.(*Expr)
	if !ok {
		return v.N
	}
	if m.spec > 0 {
		panic("concretize in speculation")
	}
	// small ITE trees over constants: fork over the leaves at once
	if leaves := constLeaves(e, 32); leaves != nil {
		guards := make([]*Expr, len(leaves))
		for i, l := range leaves {
			guards[i] = m.x.op(OEq, 0, e, m.x.konst(l, w), nil)
		}
		return leaves[m.fork(guards)]
	}
	for {
		// the value tried is part of the recorded trail: a replay has another model
		var val uint64
		if m.pos < len(m.prefix) {
			val = m.prefix[m.pos]
			m.pos++
			m.trail = append(m.trail, val)
		} else {
			val = m.x.eval(e, m.model)
			m.trail = append(m.trail, val)
			m.pos++
			m.prefix = m.trail
		}
		if m.branch(m.x.op(OEq, 0, e, m.x.konst(val, w), nil)) {
			return val
		}
	}
}

// constLeaves lists the distinct values of an ITE tree whose leaves are all constant.
func constLeaves(e *Expr, max int) []uint64 {
	var out []uint64
	n := 0
	var walk func(e *Expr) bool
	walk = func(e *Expr) bool {
		n++
		if n > 4*max {
			return false
		}
		switch e.op {
		case OConst:
			for _, o := range out {
				if o == e.val {
					return true
				}
			}
			out = append(out, e.val)
			return len(out) <= max
		case OIte:
			return walk(e.b) && walk(e.c)
		}
		return false
	}
	if !walk(e) {
		return nil
	}
	return out
}

func (m *Machine) assume(v Value) {
	e, ok := v.X.(*Expr)
	if !ok {
		if v.N == 0 {
			panic(&pathEnd{"assume", ""})
		}
		return
	}
	switch m.quick(e) {
	case 2:
		return
	case 0:
		panic(&pathEnd{"assume", ""})
	}
	if m.x.eval(e, m.model) != 1 {
		res, model := m.feasible(e)
		switch res {
		case rUnsat:
			panic(&pathEnd{"assume", ""})
		case rUnknown:
			m.fail("solver gave no answer")
		}
		m.model = model
	}
	m.addConstraint(e)
}

func (m *Machine) replaying() bool { return m.pos < len(m.prefix) }

// assert discharges the condition for all values on this path.
func (m *Machine) assert(v Value, msg string) {
	m.asserts++
	e, ok := v.X.(*Expr)
	if !ok {
		m.assertsConst++
		if v.N == 0 {
			// holds for no value on this path: any model of the path is a counterexample
			if !m.replaying() {
				m.violation(msg, m.model)
			}
			panic(&pathEnd{"violation", msg})
		}
		return
	}
	if !m.replaying() {
		m.assertQueries++
		res, model := m.solve(m.x.not(e))
		switch res {
		case rSat:
			m.violation(msg, model)
		case rUnknown:
			m.noteUnsupported("solver gave no answer on an assertion")
		}
	}
	if m.x.eval(e, m.model) != 1 {
		res, model := m.solve(e)
		if res != rSat {
			panic(&pathEnd{"violation", msg})
		}
		m.model = model
	}
	m.addConstraint(e)
}

func (m *Machine) violation(msg string, model []uint64) {
	v := &Violation{Harness: m.curHarness.Name, Msg: msg, Inputs: append([]Input(nil), m.inputs...)}
	for _, in := range m.inputs {
		if in.E != nil {
			v.Vals = append(v.Vals, m.x.eval(in.E, model))
		} else {
			v.Vals = append(v.Vals, in.N)
		}
	}
	if m.goState != nil {
		v.Sched = append(v.Sched, m.goState.order...)
	}
	m.stats.Violations++
	m.violations = append(m.violations, v)
}

func (m *Machine) callStack() string {
	var sb strings.Builder
	for i := len(m.where) - 1; i >= 0 && i > len(m.where)-12; i-- {
		fmt.Fprintf(&sb, "%s < ", m.where[i].name)
	}
	return sb.String()
}

// where forks happen, with -forks
var forkProf map[string]int
var forkMu sync.Mutex

func (m *Machine) noteFork() {
	k := ""
	for i := len(m.where) - 1; i >= 0 && i > len(m.where)-4; i-- {
		k += m.where[i].name + " < "
	}
	forkMu.Lock()
	forkProf[k]++
	forkMu.Unlock()
}
