package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"
)

type instr func(m *M)

type frameKind uint8

const (
	fkCall frameKind = iota
	fkDefer
	fkPanicDefer
	fkInit
)

type Frame struct {
	fn        *Fn
	pc        int
	base      int
	ret       int32
	kind      frameKind
	recovered bool
	defers    *deferRec
	pan       *panicRec
	post      func(*M, V) V // applied to the result
}

type deferRec struct {
	clo  *Closure
	args []V
	next *deferRec
}

type panicRec struct {
	v     V // interface value
	where string
}

type trailEnt struct {
	o     *Obj
	off   int32 // -1: whole object
	epoch uint32
	old   V
	all   []V
	undo  func()
}

type choice struct {
	frames   []Frame
	regs     []V
	trail    int
	pc       int
	dec      int
	decided  int
	obs      int
	conc     int
	alt      *Term
	altModel Model
	altDec   uint64
	epoch    uint32
	steps    int64
	level    int
	misc     miscState
}

// miscState is small path-local state saved with a choice point.
type miscState struct {
	lits    int
	reached []string
	clock   int64
	vcount  int
	vars    []*Term // variables declared on this path
	strict  bool    // a read lock may not be taken again while held (a waiting writer would block it)
}

// endPath is thrown to stop the current path.
type endPath struct {
	kind string // done, infeasible, panic, unsupported, budget, deadlock
	msg  string
}

type obsEnt struct {
	label string
	v     V
	t     *TInfo
}

// M is one symbolic machine (worker).
type M struct {
	P     *Prog
	tt    *TermTab
	sol   *Solver
	regs  []V
	r     []V
	code  []instr
	pc    int
	frames []Frame
	top   int // end of used regs

	globals map[any]*Obj

	trail   []trailEnt
	epoch   uint32
	choices []*choice
	root    *choice

	pathc   []*Term
	model   Model
	memo    map[*Term]uint64
	decided map[*Term]bool
	decList []*Term
	concVal  map[*Term]uint64
	concList []*Term
	decs    []uint64
	replay  []uint64

	obs  []obsEnt
	misc miscState

	steps    int64
	maxSteps int64
	total    int64
	nextID   uint32
	deadline time.Time
	forks    int

	symInts map[string]*Term
	lits    []*Term

	ex        *Explorer
	asserts   *AssertStats
	pools     map[*Obj]bool
	trace     bool
	fnSeen    map[*Fn]bool
	curPath   *PathResult
	inInit    bool
	cached    map[string]any
	unionObj  *Obj
}

func newM(P *Prog) *M {
	m := &M{P: P, tt: newTermTab(), globals: map[any]*Obj{}, decided: map[*Term]bool{}, concVal: map[*Term]uint64{}, memo: map[*Term]uint64{},
		maxSteps: 1 << 62, fnSeen: map[*Fn]bool{}, cached: map[string]any{}}
	m.regs = make([]V, 1<<15)
	m.model = Model{}
	return m
}

func unsupported(f string, a ...any) { panic(endPath{"unsupported", fmt.Sprintf(f, a...)}) }

// ---- memory

func (m *M) alloc(n int) *Obj {
	return &Obj{s: make([]V, n), epoch: m.epoch}
}

func (m *M) touch(o *Obj, off int) {
	if o.epoch >= m.epoch {
		return
	}
	if len(o.s) <= 64 {
		c := make([]V, len(o.s))
		copy(c, o.s)
		m.trail = append(m.trail, trailEnt{o: o, off: -1, epoch: o.epoch, all: c})
		o.epoch = m.epoch
		return
	}
	m.trail = append(m.trail, trailEnt{o: o, off: int32(off), old: o.s[off], epoch: o.epoch})
}

func (m *M) set(o *Obj, off int, v V) {
	if o.epoch < m.epoch {
		m.touch(o, off)
	}
	o.s[off] = v
}

func (m *M) onUndo(f func()) { m.trail = append(m.trail, trailEnt{undo: f}) }

func (m *M) rollback(n int) {
	for len(m.trail) > n {
		e := &m.trail[len(m.trail)-1]
		if e.undo != nil {
			e.undo()
		} else if e.off < 0 {
			copy(e.o.s, e.all)
			e.o.epoch = e.epoch
		} else {
			e.o.s[e.off] = e.old
		}
		*e = trailEnt{}
		m.trail = m.trail[:len(m.trail)-1]
	}
}

// load reads a value of type t at p.
func (m *M) load(p V, t *TInfo) V {
	o, ok := p.r.(*Obj)
	if !ok {
		if p.r == nil {
			m.nilDeref()
		}
		if sp, ok := p.r.(*SymPtr); ok {
			return m.symLoad(sp, t)
		}
		unsupported("load through %T", p.r)
	}
	off := int(p.n)
	if t.agg() {
		c := make([]V, t.size)
		if off+t.size > len(o.s) {
			unsupported("load layout mismatch %s", t)
		}
		copy(c, o.s[off:off+t.size])
		return V{r: &Agg{c}}
	}
	if off >= len(o.s) {
		unsupported("load out of layout %s", t)
	}
	return o.s[off]
}

func (m *M) store(p V, v V, t *TInfo) {
	o, ok := p.r.(*Obj)
	if !ok {
		if p.r == nil {
			m.nilDeref()
		}
		if sp, ok := p.r.(*SymPtr); ok {
			p = m.concPtr(sp)
			m.store(p, v, t)
			return
		}
		unsupported("store through %T", p.r)
	}
	off := int(p.n)
	if t.agg() {
		a := v.r.(*Agg)
		if off+t.size > len(o.s) {
			unsupported("store layout mismatch %s", t)
		}
		if o.epoch < m.epoch {
			if len(o.s) <= 64 {
				m.touch(o, off)
			} else {
				for i := range a.s {
					m.touch(o, off+i)
				}
			}
		}
		copy(o.s[off:], a.s)
		return
	}
	if off >= len(o.s) {
		unsupported("store out of layout %s", t)
	}
	if o.epoch < m.epoch {
		m.touch(o, off)
	}
	o.s[off] = v
}

// SymPtr is a pointer to element idx (symbolic) of an array region.
type SymPtr struct {
	o    *Obj
	off  int
	esz  int
	n    int
	idx  *Term
	extra int
}

func (m *M) symLoad(sp *SymPtr, t *TInfo) V {
	if t.size != 1 || t.agg() {
		return m.load(m.concPtr(sp), t)
	}
	vals := make([]V, sp.n)
	for i := range vals {
		vals[i] = sp.o.s[sp.off+i*sp.esz+sp.extra]
	}
	return m.selectV(vals, sp.idx, t)
}

// selectV builds vals[idx] for a scalar/any type.
func (m *M) selectV(vals []V, idx *Term, t *TInfo) V {
	scalar := (t.kind == KInt || t.kind == KBool)
	lo, hi := int(idx.lo), len(vals)-1
	if idx.hi < uint64(hi) {
		hi = int(idx.hi)
	}
	if scalar && hi-lo < 4096 {
		res := m.asTerm(vals[hi], t)
		last := vals[hi]
		for i := hi - 1; i >= lo; i-- {
			if vals[i] == last {
				continue
			}
			res = m.tt.Ite(m.tt.Bin(OUle, idx, m.tt.Const(uint64(i), idx.w)), m.asTerm(vals[i], t), res)
			last = vals[i]
		}
		return m.fromTerm(res, t)
	}
	return vals[m.concretize(idx)]
}

func (m *M) concPtr(sp *SymPtr) V {
	i := m.concretize(sp.idx)
	return V{r: sp.o, n: uint64(sp.off + int(i)*sp.esz + sp.extra)}
}

// ---- terms <-> values

func (m *M) asTerm(v V, t *TInfo) *Term {
	if v.r == nil {
		if t.kind == KBool {
			return m.tt.Bool(v.n != 0)
		}
		return m.tt.Const(v.n, t.w)
	}
	if x, ok := v.r.(*Term); ok {
		return x
	}
	unsupported("asTerm of %T", v.r)
	return nil
}

func normN(n uint64, w uint8, signed bool) uint64 {
	if w >= 64 {
		return n
	}
	if signed {
		return uint64(sx(n, w))
	}
	return n & mask(w)
}

func (m *M) fromTerm(x *Term, t *TInfo) V {
	if isC(x) {
		if x.w == 0 {
			return V{n: x.k}
		}
		return V{n: normN(x.k, t.w, t.signed)}
	}
	return V{r: x}
}

func (m *M) boolV(x *Term) V {
	if isC(x) {
		return V{n: x.k}
	}
	return V{r: x}
}

func (m *M) evalModel(t *Term) uint64 {
	return m.model.eval(t, m.memo)
}

func (m *M) setModel(md Model) {
	m.model = md
	m.memo = map[*Term]uint64{}
}

// concretize forks over the feasible values of t.
func (m *M) concretize(t *Term) uint64 {
	if isC(t) {
		return t.k
	}
	if v, ok := m.concVal[t]; ok {
		return v
	}
	for i := 0; ; i++ {
		var v uint64
		if len(m.decs) < len(m.replay) {
			v = m.replay[len(m.decs)]
		} else {
			if m.model == nil {
				m.refreshModel()
			}
			v = m.evalModel(t)
		}
		m.decs = append(m.decs, v)
		c := m.tt.Bin(OEq, t, m.tt.Const(v, t.w))
		if m.branch(c) {
			m.concVal[t] = v
			m.concList = append(m.concList, t)
			return v
		}
	}
}

func (m *M) conc(v V, t *TInfo) int {
	if x, ok := v.r.(*Term); ok {
		return int(normN(m.concretize(x), t.w, t.signed))
	}
	if v.r != nil {
		unsupported("conc of %T", v.r)
	}
	return int(v.n)
}

// ---- branching

func (m *M) condV(v V) bool {
	if v.r == nil {
		return v.n != 0
	}
	return m.branch(v.r.(*Term))
}

// branch decides c on this path, forking if both sides are feasible. The
// alternative restarts the current instruction with c decided the other way.
func (m *M) branch(c *Term) bool {
	if isC(c) {
		return c.k == 1
	}
	if v, ok := m.decided[c]; ok {
		return v
	}
	neg := false
	p := c
	if c.op == OBNot {
		neg, p = true, c.a
		if v, ok := m.decided[p]; ok {
			return v != neg
		}
	}
	if len(m.decs) < len(m.replay) {
		d := m.replay[len(m.decs)]
		v := d&1 == 1
		m.decs = append(m.decs, d)
		if d&2 != 0 { // was a real fork: constrain
			m.constrain(c, v)
		}
		m.note(p, v != neg)
		return v
	}
	if m.model == nil {
		m.refreshModel()
	}
	mv := m.evalModel(c) == 1
	var other *Term
	if mv {
		other = m.tt.Not(c)
	} else {
		other = c
	}
	res, md := m.sol.Check(other, true)
	if res == rUnsat {
		m.decs = append(m.decs, b2u(mv))
		m.note(p, mv != neg)
		return mv
	}
	if res == rUnknown {
		m.ex.unknowns.Add(1)
		md = nil
	}
	// both feasible: fork
	m.forks++
	ch := m.snapshot()
	ch.alt = other
	ch.altModel = md
	ch.altDec = b2u(!mv) | 2
	m.choices = append(m.choices, ch)
	m.epoch++
	m.sol.Push()
	m.decs = append(m.decs, b2u(mv)|2)
	var side *Term
	if mv {
		side = c
	} else {
		side = m.tt.Not(c)
	}
	m.sol.Assert(side)
	m.pathc = append(m.pathc, side)
	m.note(p, mv != neg)
	if len(m.choices)&3 == 0 {
		m.ex.offer(m)
	}
	return mv
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *M) note(c *Term, v bool) {
	m.decided[c] = v
	m.decList = append(m.decList, c)
}

func (m *M) constrain(c *Term, v bool) {
	side := c
	if !v {
		side = m.tt.Not(c)
	}
	m.sol.Assert(side)
	m.pathc = append(m.pathc, side)
	if m.model != nil && m.evalModel(side) != 1 {
		m.model = nil
	}
}

func (m *M) refreshModel() {
	res, md := m.sol.Check(nil, true)
	switch res {
	case rUnsat:
		panic(endPath{"infeasible", ""})
	case rUnknown:
		m.ex.unknowns.Add(1)
		panic(endPath{"unknown", "solver gave no model"})
	}
	m.setModel(md)
}

// assume adds c to the path condition, ending the path if infeasible.
func (m *M) assume(c *Term) {
	if isC(c) {
		if c.k == 0 {
			panic(endPath{"infeasible", ""})
		}
		return
	}
	if v, ok := m.decided[c]; ok {
		if !v {
			panic(endPath{"infeasible", ""})
		}
		return
	}
	m.constrain(c, true)
	m.note(c, true)
	if m.model == nil && len(m.decs) >= len(m.replay) {
		m.refreshModel()
	}
}

// snapshot captures the state at the start of the current instruction.
func (m *M) snapshot() *choice {
	ch := &choice{trail: len(m.trail), pc: len(m.pathc), dec: len(m.decs), decided: len(m.decList),
		obs: len(m.obs), conc: len(m.concList), epoch: m.epoch, steps: m.steps, level: m.sol.level, misc: m.misc}
	ch.frames = append([]Frame(nil), m.frames...)
	ch.frames[len(ch.frames)-1].pc = m.pc - 1
	ch.regs = append([]V(nil), m.regs[:m.top]...)
	return ch
}

func (m *M) restore(ch *choice) {
	m.rollback(ch.trail)
	m.pathc = m.pathc[:ch.pc]
	m.decs = m.decs[:ch.dec]
	for len(m.decList) > ch.decided {
		delete(m.decided, m.decList[len(m.decList)-1])
		m.decList = m.decList[:len(m.decList)-1]
	}
	for len(m.concList) > ch.conc {
		delete(m.concVal, m.concList[len(m.concList)-1])
		m.concList = m.concList[:len(m.concList)-1]
	}
	m.obs = m.obs[:ch.obs]
	m.epoch = ch.epoch
	m.steps = ch.steps
	m.misc = ch.misc
	for m.sol.level > ch.level {
		m.sol.Pop()
	}
	m.frames = append(m.frames[:0], ch.frames...)
	copy(m.regs, ch.regs)
	m.top = len(ch.regs)
	m.enterTop()
}

func (m *M) enterTop() {
	f := &m.frames[len(m.frames)-1]
	m.code = f.fn.code
	m.pc = f.pc
	m.r = m.regs[f.base : f.base+f.fn.nregs]
}

// backtrack resumes the most recent alternative; false if none left.
func (m *M) backtrack() bool {
	for len(m.choices) > 0 {
		ch := m.choices[len(m.choices)-1]
		m.choices = m.choices[:len(m.choices)-1]
		m.restore(ch)
		m.model = nil
		if ch.altModel != nil {
			m.setModel(ch.altModel)
		}
		m.replay = nil
		m.decs = append(m.decs, ch.altDec)
		m.sol.Assert(ch.alt)
		m.pathc = append(m.pathc, ch.alt)
		p, v := ch.alt, true
		if p.op == OBNot {
			p, v = p.a, false
		}
		m.note(p, v)
		if m.model == nil {
			res, md := m.sol.Check(nil, true)
			if res == rUnsat {
				continue
			}
			if res == rSat {
				m.setModel(md)
			} else {
				m.ex.unknowns.Add(1)
				continue
			}
		}
		return true
	}
	return false
}

// ---- calls

func (m *M) push(fn *Fn, args []V, bind []V, ret int32, kind frameKind) {
	if fn.code == nil {
		m.P.compile(fn)
	}
	if len(m.frames) > 0 {
		m.frames[len(m.frames)-1].pc = m.pc
	}
	if len(m.frames) > 12000 {
		panic(endPath{"stack", "call depth exceeded in " + fn.name})
	}
	if !m.fnSeen[fn] {
		m.fnSeen[fn] = true
	}
	if watchFn != "" && !m.inInit && strings.Contains(fn.name, watchFn) {
		fmt.Fprintf(os.Stderr, "CALL %s", fn.name)
		for _, a := range args {
			fmt.Fprintf(os.Stderr, " %s", a.String())
			if o, ok := a.r.(*Obj); ok && os.Getenv("VDUMP") != "" {
				fmt.Fprintf(os.Stderr, "%p{", o)
				for i := range o.s {
					fmt.Fprintf(os.Stderr, "%d:%s ", i, o.s[i].String())
				}
				fmt.Fprintf(os.Stderr, "}")
			}
		}
		fmt.Fprintln(os.Stderr)
		fmt.Fprint(os.Stderr, m.stack(3))
	}
	base := m.top
	need := base + fn.nregs
	if need > len(m.regs) {
		n := make([]V, need*2)
		copy(n, m.regs[:m.top])
		m.regs = n
	}
	m.top = need
	r := m.regs[base:need]
	copy(r, args)
	copy(r[len(args):], bind)
	m.frames = append(m.frames, Frame{fn: fn, base: base, ret: ret, kind: kind})
	m.r = r
	m.code = fn.code
	m.pc = 0
}

// invoke calls a closure.
func (m *M) invoke(c *Closure, args []V, ret int32, kind frameKind) {
	if c.fn != nil && c.fn.native == nil {
		m.push(c.fn, args, c.bind, ret, kind)
		return
	}
	var nf func(m *M, a []V) V
	if c.fn != nil {
		nf = c.fn.native
		m.fnSeen[c.fn] = true
	} else {
		nf = c.native
	}
	v := nf(m, args)
	if t, ok := v.r.(*tailCall); ok {
		n := len(m.frames)
		m.invoke(t.c, t.args, ret, kind)
		if t.post != nil {
			if len(m.frames) > n {
				f := &m.frames[len(m.frames)-1]
				if p := f.post; p != nil {
					f.post = func(m *M, v V) V { return t.post(m, p(m, v)) }
				} else {
					f.post = t.post
				}
			} else if kind == fkCall && ret >= 0 {
				m.r[ret] = t.post(m, m.r[ret])
			}
		}
		return
	}
	if kind == fkCall && ret >= 0 {
		m.r[ret] = v
	}
}

// tailCall is returned by natives that want an interpreted function to run in
// their place.
type tailCall struct {
	c    *Closure
	args []V
	post func(*M, V) V
}

func (m *M) ret(v V) {
	f := m.frames[len(m.frames)-1]
	m.frames = m.frames[:len(m.frames)-1]
	m.top = f.base
	if len(m.frames) == 0 {
		panic(endPath{"done", ""})
	}
	p := &m.frames[len(m.frames)-1]
	m.code = p.fn.code
	m.pc = p.pc
	m.r = m.regs[p.base : p.base+p.fn.nregs]
	switch f.kind {
	case fkCall:
		if f.ret >= 0 {
			if f.post != nil {
				v = f.post(m, v)
			}
			m.r[f.ret] = v
		}
	case fkDefer:
	case fkPanicDefer:
		m.unwind()
	}
}

// doPanic starts panicking with interface value v in the current frame.
func (m *M) doPanic(v V, where string) {
	f := &m.frames[len(m.frames)-1]
	f.pan = &panicRec{v, where}
	f.recovered = false
	f.pc = m.pc
	m.unwind()
}

func (m *M) unwind() {
	for {
		f := &m.frames[len(m.frames)-1]
		if f.defers != nil {
			d := f.defers
			f.defers = d.next
			if d.clo == nil {
				// deferred nil func
				continue
			}
			if d.clo.fn != nil && d.clo.fn.native == nil {
				m.pc = f.pc
				m.push(d.clo.fn, d.args, d.clo.bind, -1, fkPanicDefer)
				return
			}
			n0 := len(m.frames)
			m.invoke(d.clo, d.args, -1, fkPanicDefer)
			if len(m.frames) != n0 {
				return // native tail-called into interpreted code
			}
			continue
		}
		if f.recovered || f.pan == nil {
			f.pan = nil
			f.recovered = false
			if f.fn.recoverPC >= 0 {
				m.pc = f.fn.recoverPC
				m.code = f.fn.code
				m.r = m.regs[f.base : f.base+f.fn.nregs]
				return
			}
			m.ret(f.fn.zeroRes())
			return
		}
		p := f.pan
		if len(m.frames) == 1 {
			panic(endPath{"panic", m.panicText(p.v) + " @ " + p.where})
		}
		m.frames = m.frames[:len(m.frames)-1]
		m.top = f.base
		pf := &m.frames[len(m.frames)-1]
		pf.pan = p
		pf.recovered = false
		m.code = pf.fn.code
		m.pc = pf.pc
		m.r = m.regs[pf.base : pf.base+pf.fn.nregs]
	}
}

func (m *M) panicText(v V) string {
	i, ok := v.r.(*Iface)
	if !ok {
		return "panic(nil)"
	}
	switch i.t.kind {
	case KString:
		if s, ok := strC(i.v); ok {
			return s
		}
		return i.v.String()
	case KStruct:
		return i.t.String() + i.v.String()
	}
	return i.t.String() + " " + m.deepString(i.v, i.t, 3)
}

func (m *M) deepString(v V, t *TInfo, d int) string {
	if d == 0 {
		return "…"
	}
	switch t.kind {
	case KPtr:
		if o, ok := v.r.(*Obj); ok && t.elem.size > 0 && int(v.n)+t.elem.size <= len(o.s) {
			return "&" + m.deepString(m.load(v, t.elem), t.elem, d-1)
		}
	case KStruct:
		s := "{"
		for i, ft := range t.fields {
			if i > 6 {
				break
			}
			s += " " + m.deepString(aggField(v, t.offs[i], ft), ft, d-1)
		}
		return s + "}"
	case KIface:
		if i, ok := v.r.(*Iface); ok {
			return "(" + i.t.reflString() + ")" + m.deepString(i.v, i.t, d-1)
		}
		return "nil"
	}
	return v.String()
}

// where describes the current source position.
func (m *M) where() string {
	if len(m.frames) == 0 {
		return "?"
	}
	f := m.frames[len(m.frames)-1]
	pc := m.pc - 1
	if pc >= 0 && pc < len(f.fn.pos) && f.fn.pos[pc].IsValid() {
		p := m.P.fset.Position(f.fn.pos[pc])
		return fmt.Sprintf("%s:%d (%s)", p.Filename, p.Line, f.fn.name)
	}
	return f.fn.name
}

func (m *M) stack(n int) string {
	var sb strings.Builder
	for i := len(m.frames) - 1; i >= 0 && n > 0; i-- {
		f := m.frames[i]
		pc := f.pc - 1
		if i == len(m.frames)-1 {
			pc = m.pc - 1
		}
		pos := ""
		for ; pc >= 0 && pc < len(f.fn.pos); pc-- {
			if f.fn.pos[pc].IsValid() {
				p := m.P.fset.Position(f.fn.pos[pc])
				pos = fmt.Sprintf("%s:%d", p.Filename, p.Line)
				break
			}
		}
		fmt.Fprintf(&sb, "    %s %s\n", f.fn.name, pos)
		n--
	}
	return sb.String()
}

// throwRT raises a Go runtime error panic from inside an instruction.
type goPanic struct{ v V }

func (m *M) throwRT(msg string) {
	t := m.P.rtErrType
	panic(goPanic{V{r: &Iface{t: t, v: mkStr(msg)}}})
}

func (m *M) throwStr(msg string) {
	panic(goPanic{V{r: &Iface{t: m.P.stringT, v: mkStr(msg)}}})
}

func (m *M) nilDeref() { m.throwRT("invalid memory address or nil pointer dereference") }

// run executes until the path ends. It returns how.
func (m *M) run() (end endPath) {
	for {
		e, again := m.run1()
		if !again {
			return e
		}
	}
}

func (m *M) run1() (end endPath, again bool) {
	defer func() {
		if x := recover(); x != nil {
			switch x := x.(type) {
			case endPath:
				end = x
				if x.kind == "unsupported" || x.kind == "stack" || x.kind == "budget" {
					end.msg += " @ " + m.where()
					if debugStacks {
						fmt.Fprintln(os.Stderr, "END", end.kind, end.msg)
						fmt.Fprint(os.Stderr, m.stack(40))
					}
				}
			case goPanic:
				w := m.where()
				if debugStacks && os.Getenv("VDEBUG") == "2" {
					fmt.Fprintln(os.Stderr, "GOPANIC", m.panicText(x.v), w)
					fmt.Fprint(os.Stderr, m.stack(12))
				}
				func() {
					defer func() {
						if y := recover(); y != nil {
							if e, ok := y.(endPath); ok {
								end = e
								return
							}
							panic(y)
						}
					}()
					m.doPanic(x.v, w)
					again = true
				}()
			default:
				if debugStacks {
					fmt.Fprintln(os.Stderr, "ENGINE PANIC", x, "@", m.where())
					fmt.Fprint(os.Stderr, m.stack(40))
					panic(x)
				}
				end = endPath{"unsupported", fmt.Sprintf("engine: %v @ %s", x, m.where())}
			}
		}
	}()
	limit := m.steps + 1<<20
	for {
		for m.steps < limit {
			m.steps++
			i := m.pc
			m.pc++
			m.code[i](m)
		}
		m.total += 1 << 20
		if debugSteps {
			fmt.Fprintln(os.Stderr, "STEP", m.steps>>20, "frames", len(m.frames), "terms", len(m.tt.tab))
			fmt.Fprint(os.Stderr, m.stack(25))
		}
		limit = m.steps + 1<<20
		if m.steps > m.maxSteps {
			panic(endPath{"budget", "step budget exceeded"})
		}
		if !m.deadline.IsZero() && time.Now().After(m.deadline) {
			panic(endPath{"budget", "time budget exceeded"})
		}
		if m.ex != nil && m.ex.memHigh.Load() {
			panic(endPath{"budget", "memory budget exceeded"})
		}
	}
}

var watchFn = os.Getenv("VWATCH")

var debugSteps = os.Getenv("VSTEPS") != ""

var debugStacks = os.Getenv("VDEBUG") != ""

func aggField(v V, off int, t *TInfo) V {
	a := v.r.(*Agg)
	if t.agg() {
		return V{r: &Agg{a.s[off : off+t.size : off+t.size]}}
	}
	return a.s[off]
}

var _ = types.Typ
