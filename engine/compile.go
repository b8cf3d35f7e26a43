package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type execFn func(m *Machine, fr *Frame)
type specFn func(m *Machine, fr *Frame) bool

type Instr struct {
	exec execFn
	spec specFn // nil: cannot be executed speculatively
}

type phi struct {
	dst   int
	ti    *TI
	edges []operand
}

type termKind uint8

const (
	tJump termKind = iota
	tIf
	tReturn
	tPanic
)

type Blk struct {
	idx        int
	rpo        int
	instrs     []Instr
	phis       []phi
	term       termKind
	cond       operand
	succ       [2]*Blk
	spred      [2]int // index of this block among the successor's predecessors
	ret        []operand
	header     bool // target of a back edge
	speculable bool
}

type Fn struct {
	name       string
	pkg        string
	f          *ssa.Function
	once       sync.Once
	native     func(m *Machine, fn *Fn, args []Value) Value
	nativePure bool
	deny       bool
	nregs      int
	nparams    int
	free0      int
	blocks     []*Blk
	recover    *Blk
	hasDefer   bool
	pure       bool // blocks are all speculable
	inMod      bool
	retTI      []*TI
	sig        *types.Signature
}

type Frame struct {
	fn        *Fn
	regs      []Value
	defers    []deferred
	pan       *targetPanic
	recovered bool
	deferOf   *Frame
	result    Value
}

type deferred struct {
	f      Value
	native func(m *Machine)
	args   []Value
}

// operand kinds
type operand struct {
	reg  int // >= 0: register
	c    Value
	glob int // >= 0: address of a global
}

func (o *operand) get(m *Machine, fr *Frame) Value {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.glob >= 0 {
		return Value{X: m.global(o.glob)}
	}
	return o.c
}

type compiler struct {
	p   *Program
	fn  *Fn
	reg map[ssa.Value]int
}

func (p *Program) fnOf(f *ssa.Function) *Fn {
	p.fnMu.Lock()
	defer p.fnMu.Unlock()
	if fn := p.fns[f]; fn != nil {
		return fn
	}
	fn := &Fn{name: f.String(), f: f, sig: f.Signature}
	if pk := fnPkg(f); pk != nil {
		fn.pkg = pk.Path()
	}
	fn.inMod = strings.HasPrefix(fn.pkg, p.Module) && !strings.Contains(fn.pkg, "zzverif")
	p.fns[f] = fn
	return fn
}

func fnPkg(f *ssa.Function) *types.Package {
	if f.Pkg != nil {
		return f.Pkg.Pkg
	}
	if f.Origin() != nil && f.Origin() != f {
		return fnPkg(f.Origin())
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg()
	}
	if f.Parent() != nil {
		return fnPkg(f.Parent())
	}
	return nil
}

func (fn *Fn) ready(p *Program) {
	fn.once.Do(func() {
		defer func() {
			if r := recover(); r != nil {
				panic(fmt.Sprintf("compiling %s: %v", fn.name, r))
			}
		}()
		res := fn.f.Signature.Results()
		for i := 0; i < res.Len(); i++ {
			fn.retTI = append(fn.retTI, tiOf(res.At(i).Type()))
		}
		fn.nparams = len(fn.f.Params)
		name := fn.name
		if o := fn.f.Origin(); o != nil {
			name = o.String()
		}
		if in, ok := intrinsics[name]; ok {
			fn.native = in
			fn.nativePure = pureIntrinsics[name]
			return
		}
		if in := intrinsicByPattern(name); in != nil {
			fn.native = in
			return
		}
		if fn.f.Synthetic == "package initializer" && p.initDenied(fn.pkg) {
			fn.native = nop
			return
		}
		if p.denied(fn.pkg) || fn.f.Blocks == nil {
			fn.deny = true
			return
		}
		c := &compiler{p: p, fn: fn, reg: map[ssa.Value]int{}}
		c.compile()
	})
}

func (c *compiler) newReg(v ssa.Value) int {
	r := c.fn.nregs
	c.fn.nregs++
	if v != nil {
		c.reg[v] = r
	}
	return r
}

func (c *compiler) op(v ssa.Value) operand {
	switch v := v.(type) {
	case *ssa.Const:
		return operand{reg: -1, glob: -1, c: constVal(v)}
	case *ssa.Global:
		return operand{reg: -1, glob: c.p.globalIndex(v)}
	case *ssa.Function:
		return operand{reg: -1, glob: -1, c: Value{X: c.p.closureOf(v)}}
	case *ssa.Builtin:
		return operand{reg: -1, glob: -1}
	}
	r, ok := c.reg[v]
	if !ok {
		r = c.newReg(v)
	}
	return operand{reg: r, glob: -1}
}

func (p *Program) closureOf(f *ssa.Function) *Closure {
	fn := p.fnOf(f)
	p.fnMu.Lock()
	defer p.fnMu.Unlock()
	cl := p.closures[fn]
	if cl == nil {
		cl = &Closure{fn: fn}
		p.closures[fn] = cl
	}
	return cl
}

func constVal(v *ssa.Const) Value {
	ti := tiOf(v.Type())
	if v.Value == nil {
		return zero(ti)
	}
	switch ti.kind {
	case KBool:
		return Value{N: b2u(constant.BoolVal(v.Value))}
	case KInt:
		x := constant.ToInt(v.Value)
		if i, ok := constant.Int64Val(x); ok {
			return Value{N: uint64(i) & mask(ti.w)}
		}
		u, _ := constant.Uint64Val(x)
		return Value{N: u & mask(ti.w)}
	case KFloat:
		f, _ := constant.Float64Val(v.Value)
		return Value{N: math.Float64bits(f)}
	case KString:
		if v.Value.Kind() == constant.String {
			return mkStr(constant.StringVal(v.Value))
		}
		i, _ := constant.Int64Val(v.Value)
		return mkStr(string(rune(i)))
	case KUnsafe, KPtr:
		return Value{}
	case KIface:
		return Value{}
	}
	return Value{}
}

func (c *compiler) compile() {
	f := c.fn.f
	for _, p := range f.Params {
		c.newReg(p)
	}
	c.fn.free0 = c.fn.nregs
	for _, p := range f.FreeVars {
		c.newReg(p)
	}
	blks := map[*ssa.BasicBlock]*Blk{}
	for _, b := range f.Blocks {
		nb := &Blk{idx: b.Index}
		blks[b] = nb
		c.fn.blocks = append(c.fn.blocks, nb)
	}
	if f.Recover != nil {
		c.fn.recover = blks[f.Recover]
	}
	// reverse post order
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	if f.Recover != nil && !seen[f.Recover] {
		dfs(f.Recover)
	}
	for i, b := range post {
		blks[b].rpo = len(post) - 1 - i
	}
	for _, b := range post {
		for _, s := range b.Succs {
			if blks[s].rpo <= blks[b].rpo {
				blks[s].header = true
			}
		}
	}
	pure := true
	for _, b := range f.Blocks {
		nb := blks[b]
		nb.speculable = true
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Phi:
				r, ok := c.reg[in]
				if !ok {
					r = c.newReg(in)
				}
				ph := phi{dst: r, ti: tiOf(in.Type())}
				for _, e := range in.Edges {
					ph.edges = append(ph.edges, c.op(e))
				}
				nb.phis = append(nb.phis, ph)
			case *ssa.If:
				nb.term = tIf
				nb.cond = c.op(in.Cond)
			case *ssa.Jump:
				nb.term = tJump
			case *ssa.Return:
				nb.term = tReturn
				for _, r := range in.Results {
					nb.ret = append(nb.ret, c.op(r))
				}
			case *ssa.Panic:
				nb.term = tPanic
				nb.cond = c.op(in.X)
				nb.speculable = false
			case *ssa.DebugRef:
			default:
				i := c.instr(in)
				if i.exec == nil && i.spec != nil {
					sp := i.spec
					i.exec = func(m *Machine, fr *Frame) {
						if !sp(m, fr) {
							panic("spec failed in exec")
						}
					}
				}
				if i.spec == nil {
					nb.speculable = false
				}
				nb.instrs = append(nb.instrs, i)
			}
		}
		for i, s := range b.Succs {
			nb.succ[i] = blks[s]
			n := 0
			for j, p := range s.Preds {
				if p == b {
					// an If with both successors equal has two entries
					if i == 1 && b.Succs[0] == s && n == 0 {
						n++
						continue
					}
					nb.spred[i] = j
					break
				}
			}
		}
		if !nb.speculable && nb.term != tPanic {
			pure = false
		}
	}
	c.fn.pure = pure && !c.fn.hasDefer && len(f.Blocks) <= 200
}

func (m *Machine) global(i int) *Value {
	if g := m.globals[i]; g != nil {
		return g
	}
	g := m.P.globalList[i]
	v := new(Value)
	*v = zero(tiOf(g.Type().(*types.Pointer).Elem()))
	m.globals[i] = v
	return v
}

// ---- execution ----

func (m *Machine) callFn(fn *Fn, args []Value, env []Value) Value {
	return m.callFn2(fn, args, env, nil)
}

func (m *Machine) callFn2(fn *Fn, args []Value, env []Value, deferOf *Frame) Value {
	fn.ready(m.P)
	if fn.native != nil {
		return fn.native(m, fn, args)
	}
	if fn.deny {
		if m.epoch == 1 && len(m.where) > 0 && !m.where[len(m.where)-1].inMod {
			// initialisers of library packages whose helpers are not modelled
			return zeroResult(fn)
		}
		m.fail("call of %s", fn.name)
	}
	if fn.pure && !m.noPure {
		if v, ok := m.evalPure(fn, args, env); ok {
			return v
		}
	}
	m.depth++
	if m.depth > 3000 {
		m.depth = 0
		panic(&pathEnd{"budget", "stack depth"})
	}
	if fn.inMod {
		m.fnSeen[fn] = true
	}
	ch, sp := m.chunk, m.sp
	fr := &Frame{fn: fn, regs: m.regs(fn.nregs), deferOf: deferOf}
	copy(fr.regs, args)
	copy(fr.regs[fn.free0:], env)
	m.where = append(m.where, fn)
	if fn.hasDefer {
		m.runDefer(fr)
	} else {
		m.run(fr, fn.blocks[0])
	}
	m.where = m.where[:len(m.where)-1]
	m.depth--
	m.chunk, m.sp = ch, sp
	return fr.result
}

func (m *Machine) runDefer(fr *Frame) {
	depth, wl, ch, sp := m.depth, len(m.where), m.chunk, m.sp
	run := func(b *Blk) {
		defer func() {
			if r := recover(); r != nil {
				tp, ok := r.(*targetPanic)
				if !ok {
					panic(r)
				}
				if tp.where == "" {
					tp.where = m.callStack()
				}
				m.depth, m.where, m.chunk, m.sp = depth, m.where[:wl], ch, sp
				fr.pan = tp
				fr.recovered = false
			}
		}()
		m.run(fr, b)
	}
	run(fr.fn.blocks[0])
	for fr.pan != nil {
		// run the remaining deferred calls; one of them may recover, or panic anew
		func() {
			defer func() {
				if r := recover(); r != nil {
					tp, ok := r.(*targetPanic)
					if !ok {
						panic(r)
					}
					m.depth, m.where, m.chunk, m.sp = depth, m.where[:wl], ch, sp
					fr.pan = tp
					fr.recovered = false
				}
			}()
			m.runDeferred(fr)
		}()
		if fr.recovered {
			fr.pan = nil
			fr.recovered = false
			if fr.fn.recover != nil {
				m.run(fr, fr.fn.recover)
			} else {
				fr.result = zeroResult(fr.fn)
			}
			return
		}
		if len(fr.defers) == 0 {
			panic(fr.pan)
		}
	}
}

func zeroResult(fn *Fn) Value {
	switch len(fn.retTI) {
	case 0:
		return Value{}
	case 1:
		return zero(fn.retTI[0])
	}
	t := &Tuple{}
	for _, r := range fn.retTI {
		t.f = append(t.f, zero(r))
	}
	return Value{X: t}
}

func (m *Machine) runDeferred(fr *Frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		if d.native != nil {
			d.native(m)
		} else {
			m.callClosure(d.f, d.args, fr)
		}
	}
}

func (m *Machine) callClosure(f Value, args []Value, deferOf *Frame) Value {
	cl, ok := f.X.(*Closure)
	if !ok || cl == nil {
		m.throw("invalid memory address or nil pointer dereference (nil func)")
	}
	if cl.native != nil {
		return cl.native(m, args)
	}
	return m.callFn2(cl.fn, args, cl.env, deferOf)
}

func (m *Machine) enter(fr *Frame, b *Blk, pred int) {
	switch len(b.phis) {
	case 0:
	case 1:
		fr.regs[b.phis[0].dst] = b.phis[0].edges[pred].get(m, fr)
	default:
		var tmp [8]Value
		t := tmp[:0]
		for i := range b.phis {
			t = append(t, b.phis[i].edges[pred].get(m, fr))
		}
		for i := range b.phis {
			fr.regs[b.phis[i].dst] = t[i]
		}
	}
}

func (m *Machine) run(fr *Frame, b *Blk) {
	for {
		m.steps += len(b.instrs) + 1
		if m.steps > m.budget {
			panic(&pathEnd{"budget", "instruction budget"})
		}
		for i := range b.instrs {
			b.instrs[i].exec(m, fr)
		}
		switch b.term {
		case tJump:
			m.enter(fr, b.succ[0], b.spred[0])
			b = b.succ[0]
		case tIf:
			c := b.cond.get(m, fr)
			if e, ok := c.X.(*Expr); ok {
				if q := m.quick(e); q == 0 || q == 2 {
					c = Value{N: b2u(q == 2)}
				} else {
					b = m.symIf(fr, b, e)
					continue
				}
			}
			s := 1
			if c.N != 0 {
				s = 0
			}
			m.enter(fr, b.succ[s], b.spred[s])
			b = b.succ[s]
		case tReturn:
			switch len(b.ret) {
			case 0:
			case 1:
				fr.result = b.ret[0].get(m, fr)
			default:
				t := &Tuple{make([]Value, len(b.ret))}
				for i := range b.ret {
					t.f[i] = b.ret[i].get(m, fr)
				}
				fr.result = Value{X: t}
			}
			return
		case tPanic:
			v := b.cond.get(m, fr)
			panic(&targetPanic{v: v, msg: m.panicText(v), where: m.callStack()})
		}
	}
}

func (m *Machine) panicText(v Value) string {
	if i, ok := v.X.(*Iface); ok {
		if s, ok := concStr(i.v); ok && i.t.kind == KString {
			return s
		}
		return i.t.String()
	}
	return "nil"
}

// ---- if-conversion ----

type edge struct {
	guard *Expr
	to    *Blk
	pred  int
	vals  []Value // phi values
}

type exitGroup struct {
	guard *Expr
	to    *Blk
	vals  []Value
	ret   []Value
	isRet bool
}

const maxRegion = 80

// region executes the pure blocks after a symbolic If at block b once each under guards,
// and returns the edges that leave the region, merged by target and phi values.
func (m *Machine) region(fr *Frame, b *Blk, cond *Expr, base *Expr, rets bool) []exitGroup {
	var pend []edge
	push := func(g *Expr, from *Blk, i int) {
		if g.op == OConst && g.val == 0 || m.quick(g) == 0 {
			return
		}
		to := from.succ[i]
		e := edge{guard: g, to: to, pred: from.spred[i]}
		for j := range to.phis {
			e.vals = append(e.vals, to.phis[j].edges[e.pred].get(m, fr))
		}
		pend = append(pend, e)
	}
	push(m.x.and(base, cond), b, 0)
	push(m.x.and(base, m.x.not(cond)), b, 1)
	var exits []edge
	var out []exitGroup
	m.spec++
	n := 0
	for len(pend) > 0 {
		// next block in reverse post order
		q := pend[0].to
		for _, e := range pend[1:] {
			if e.to.rpo < q.rpo {
				q = e.to
			}
		}
		var in []edge
		k := 0
		for _, e := range pend {
			if e.to == q {
				in = append(in, e)
			} else {
				pend[k] = e
				k++
			}
		}
		pend = pend[:k]
		n++
		if q.header || q.rpo <= b.rpo || !q.speculable || n > maxRegion || (q.term == tReturn && !rets) {
			exits = append(exits, in...)
			continue
		}
		groups := m.mergeEdges(in)
		if len(groups) != 1 {
			exits = append(exits, in...)
			continue
		}
		g := groups[0]
		for j := range q.phis {
			fr.regs[q.phis[j].dst] = g.vals[j]
		}
		ok := true
		m.steps += len(q.instrs) + 1
		for i := range q.instrs {
			if !q.instrs[i].spec(m, fr) {
				ok = false
				break
			}
		}
		if !ok {
			exits = append(exits, in...)
			continue
		}
		switch q.term {
		case tJump:
			push(g.guard, q, 0)
		case tIf:
			c := q.cond.get(m, fr)
			if ce, ok := c.X.(*Expr); ok {
				push(m.x.and(g.guard, ce), q, 0)
				push(m.x.and(g.guard, m.x.not(ce)), q, 1)
			} else if c.N != 0 {
				push(g.guard, q, 0)
			} else {
				push(g.guard, q, 1)
			}
		case tReturn:
			eg := exitGroup{guard: g.guard, isRet: true}
			for i := range q.ret {
				eg.ret = append(eg.ret, q.ret[i].get(m, fr))
			}
			out = append(out, eg)
		}
	}
	m.spec--
	// group the exits by target
	for len(exits) > 0 {
		q := exits[0].to
		var in []edge
		k := 0
		for _, e := range exits {
			if e.to == q {
				in = append(in, e)
			} else {
				exits[k] = e
				k++
			}
		}
		exits = exits[:k]
		out = append(out, m.mergeEdges(in)...)
	}
	return out
}

func scalar(t *TI) bool { return t.kind == KBool || t.kind == KInt }

// mergeEdges merges edges into the same block where their phi values can be merged.
func (m *Machine) mergeEdges(in []edge) []exitGroup {
	var out []exitGroup
next:
	for _, e := range in {
		for i := range out {
			g := &out[i]
			ok := true
			for j := range e.vals {
				if !m.mergeable(e.to.phis[j].ti, g.vals[j], e.vals[j]) {
					ok = false
					break
				}
			}
			if !ok {
				continue
			}
			vals := make([]Value, len(e.vals))
			for j := range e.vals {
				vals[j] = m.mergeVal(e.guard, e.to.phis[j].ti, e.vals[j], g.vals[j])
			}
			g.vals = vals
			g.guard = m.x.or(g.guard, e.guard)
			continue next
		}
		out = append(out, exitGroup{guard: e.guard, to: e.to, vals: e.vals})
	}
	return out
}

func (m *Machine) mergeable(t *TI, a, b Value) bool {
	if scalar(t) {
		return true
	}
	return same(a, b)
}

func (m *Machine) mergeVal(g *Expr, t *TI, a, b Value) Value {
	if same(a, b) {
		return a
	}
	return mkVal(m.x.op(OIte, t.w, g, m.expr(a, t.w), m.expr(b, t.w)))
}

func (m *Machine) symIf(fr *Frame, b *Blk, cond *Expr) *Blk {
	gs := m.region(fr, b, cond, m.x.true_, false)
	if len(gs) == 0 {
		m.fail("internal: empty region")
	}
	i := 0
	if len(gs) > 1 {
		guards := make([]*Expr, len(gs))
		for j := range gs {
			guards[j] = gs[j].guard
		}
		i = m.fork(guards)
	}
	g := gs[i]
	for j := range g.to.phis {
		fr.regs[g.to.phis[j].dst] = g.vals[j]
	}
	return g.to
}

// evalPure evaluates a function made of pure instructions without forking, if possible.
func (m *Machine) evalPure(fn *Fn, args []Value, env []Value) (Value, bool) {
	if m.pureDepth > 6 {
		return Value{}, false
	}
	ch, sp := m.chunk, m.sp
	steps := m.steps
	m.pureDepth++
	m.spec++
	defer func() { m.pureDepth--; m.spec--; m.chunk, m.sp = ch, sp }()
	fr := &Frame{fn: fn, regs: m.regs(fn.nregs)}
	copy(fr.regs, args)
	copy(fr.regs[fn.free0:], env)
	b := fn.blocks[0]
	base := m.x.true_
	var rets []exitGroup
	for {
		m.steps += len(b.instrs) + 1
		if m.steps > steps+20000 {
			m.steps = steps
			return Value{}, false
		}
		if b.term == tPanic {
			return Value{}, false
		}
		for i := range b.instrs {
			if !b.instrs[i].spec(m, fr) {
				return Value{}, false
			}
		}
		switch b.term {
		case tJump:
			m.enter(fr, b.succ[0], b.spred[0])
			b = b.succ[0]
			continue
		case tIf:
			c := b.cond.get(m, fr)
			e, sym := c.X.(*Expr)
			if sym {
				if q := m.quick(e); q == 0 || q == 2 {
					c = Value{N: b2u(q == 2)}
					sym = false
				}
			}
			if !sym {
				s := 1
				if c.N != 0 {
					s = 0
				}
				m.enter(fr, b.succ[s], b.spred[s])
				b = b.succ[s]
				continue
			}
			gs := m.region(fr, b, e, base, true)
			var next *exitGroup
			for i := range gs {
				if gs[i].isRet {
					rets = append(rets, gs[i])
				} else if next != nil {
					return Value{}, false
				} else {
					next = &gs[i]
				}
			}
			if len(rets) > 200 {
				return Value{}, false
			}
			if next != nil {
				for j := range next.to.phis {
					fr.regs[next.to.phis[j].dst] = next.vals[j]
				}
				base = next.guard
				b = next.to
				continue
			}
		case tReturn:
			eg := exitGroup{guard: base, isRet: true}
			for i := range b.ret {
				eg.ret = append(eg.ret, b.ret[i].get(m, fr))
			}
			rets = append(rets, eg)
		}
		break
	}
	if len(rets) == 0 {
		return Value{}, false
	}
	n := len(fn.retTI)
	acc := append([]Value(nil), rets[len(rets)-1].ret...)
	for i := len(rets) - 2; i >= 0; i-- {
		for j := 0; j < n; j++ {
			if !m.mergeable(fn.retTI[j], acc[j], rets[i].ret[j]) {
				return Value{}, false
			}
			acc[j] = m.mergeVal(rets[i].guard, fn.retTI[j], rets[i].ret[j], acc[j])
		}
	}
	if fn.inMod {
		m.fnSeen[fn] = true
	}
	switch n {
	case 0:
		return Value{}, true
	case 1:
		return acc[0], true
	}
	return Value{X: &Tuple{acc}}, true
}

var _ = token.ADD
