package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type Fn struct {
	ssa       *ssa.Function
	name      string
	pkg       string
	code      []instr
	pos       []token.Pos
	nregs     int
	native    func(m *M, a []V) V
	clo       *Closure
	recoverPC int
	once      sync.Once
	sig       *types.Signature
	P         *Prog
}

func (f *Fn) zeroRes() V {
	res := f.sig.Results()
	switch res.Len() {
	case 0:
		return V{}
	case 1:
		return f.P.T.Of(res.At(0).Type()).zeroV()
	}
	vs := make([]V, res.Len())
	for i := range vs {
		vs[i] = f.P.T.Of(res.At(i).Type()).zeroV()
	}
	return V{r: &Agg{vs}}
}

func (t *TInfo) zeroV() V {
	if t.kind == KTuple {
		vs := make([]V, len(t.fields))
		for i := range vs {
			vs[i] = t.fields[i].zeroV()
		}
		return V{r: &Agg{vs}}
	}
	return t.zero
}

// Prog is the shared, immutable program.
type Prog struct {
	prog      *ssa.Program
	fset      *token.FileSet
	T         *Types
	fns       sync.Map // *ssa.Function -> *Fn
	mu        sync.Mutex
	rtErrType *TInfo
	stringT   *TInfo
	intT      *TInfo
	embeds    map[*ssa.Global]V
	skipInit  func(path string) bool
	pkgs      map[string]*ssa.Package
	compiled  int
}

func (P *Prog) fn(f *ssa.Function) *Fn {
	if v, ok := P.fns.Load(f); ok {
		return v.(*Fn)
	}
	fn := &Fn{ssa: f, name: f.String(), sig: f.Signature, P: P, recoverPC: -1}
	if f.Pkg != nil {
		fn.pkg = f.Pkg.Pkg.Path()
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		fn.pkg = o.Pkg.Pkg.Path()
	}
	name := fn.name
	if o := f.Origin(); o != nil {
		name = o.String()
	}
	if nf, ok := natives[name]; ok {
		fn.native = nf
	} else if cf, ok := condNatives[name]; ok {
		plain := &Fn{ssa: f, name: fn.name, sig: f.Signature, P: P, recoverPC: -1, pkg: fn.pkg}
		plain.clo = &Closure{fn: plain}
		fn.native = func(m *M, a []V) V {
			if v, ok := cf(m, a); ok {
				return v
			}
			return V{r: &tailCall{plain.clo, a, nil}}
		}
	} else if f.Name() == "init" && f.Synthetic == "package initializer" && P.skipInit(fn.pkg) {
		fn.native = func(m *M, a []V) V { return V{} }
	}
	fn.clo = &Closure{fn: fn}
	v, _ := P.fns.LoadOrStore(f, fn)
	return v.(*Fn)
}

type opnd struct {
	i int
	k V
}

type comp struct {
	P     *Prog
	fn    *Fn
	f     *ssa.Function
	regs  map[ssa.Value]int
	n     int
	code  []instr
	pos   []token.Pos
	start map[*ssa.BasicBlock]int
	fix   []func()
}

func (P *Prog) compile(fn *Fn) {
	fn.once.Do(func() {
		f := fn.ssa
		if f.Blocks == nil && f.Pkg != nil {
			f.Pkg.Build()
		}
		c := &comp{P: P, fn: fn, f: f, regs: map[ssa.Value]int{}, start: map[*ssa.BasicBlock]int{}}
		for _, p := range f.Params {
			c.regs[p] = c.n
			c.n++
		}
		for _, p := range f.FreeVars {
			c.regs[p] = c.n
			c.n++
		}
		if f.Blocks == nil {
			name := fn.name
			fn.pos = []token.Pos{f.Pos()}
			fn.nregs = c.n
			fn.code = []instr{func(m *M) { unsupported("external function %s", name) }}
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					c.regs[v] = c.n
					c.n++
				}
			}
		}
		for _, b := range f.Blocks {
			c.start[b] = len(c.code)
			for _, in := range b.Instrs {
				c.cur(in.Pos())
				c.instr(b, in)
			}
		}
		for _, fx := range c.fix {
			fx()
		}
		fn.nregs = c.n
		if f.Recover != nil {
			fn.recoverPC = c.start[f.Recover]
		}
		fn.pos = c.pos
		fn.code = c.code
	})
}

var curPos token.Pos

func (c *comp) cur(p token.Pos) { c.fn.pos = append(c.fn.pos[:0], p) }

func (c *comp) emit(i instr) {
	c.code = append(c.code, i)
	var p token.Pos
	if len(c.fn.pos) > 0 {
		p = c.fn.pos[0]
	}
	c.pos = append(c.pos, p)
}

func (c *comp) op(v ssa.Value) opnd {
	if i, ok := c.regs[v]; ok {
		return opnd{i: i}
	}
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{-1, c.konst(v)}
	case *ssa.Function:
		return opnd{-1, V{r: c.P.fn(v).clo}}
	case *ssa.Global:
		return opnd{-2, V{r: v}}
	case *ssa.Builtin:
		return opnd{-1, V{}}
	}
	panic(fmt.Sprintf("operand %T %v", v, v))
}

func (m *M) get(o *opnd) V {
	if o.i >= 0 {
		return m.r[o.i]
	}
	if o.i == -2 {
		return V{r: m.global(o.k.r.(*ssa.Global))}
	}
	return o.k
}

func (m *M) global(g *ssa.Global) *Obj {
	if o, ok := m.globals[g]; ok {
		return o
	}
	t := m.P.T.Of(g.Type()).elem
	o := &Obj{s: make([]V, t.size)}
	if v, ok := m.P.embeds[g]; ok {
		copy(o.s, v.r.(*Agg).s)
	}
	if g.Pkg != nil && m.P.skipInit(g.Pkg.Pkg.Path()) && g.Name() != "init$guard" {
		if debugStacks && !m.inInit {
			fmt.Println("# note: global of uninitialised package", g)
		}
		m.ex.poison(g.String())
	}
	m.globals[g] = o
	return o
}

func (c *comp) konst(k *ssa.Const) V {
	t := c.P.T.Of(k.Type())
	if k.Value == nil {
		return t.zeroV()
	}
	return constV(k.Value, t)
}

func constV(val constant.Value, t *TInfo) V {
	switch t.kind {
	case KBool:
		return mkBool(constant.BoolVal(val))
	case KInt:
		val = constant.ToInt(val)
		if u, ok := constant.Uint64Val(val); ok {
			return V{n: normN(u, t.w, t.signed)}
		}
		i, _ := constant.Int64Val(val)
		return V{n: normN(uint64(i), t.w, t.signed)}
	case KFloat:
		f, _ := constant.Float64Val(constant.ToFloat(val))
		if t.w == 32 {
			f = float64(float32(f))
		}
		return V{n: math.Float64bits(f)}
	case KString:
		if val.Kind() == constant.String {
			return mkStr(constant.StringVal(val))
		}
		i, _ := constant.Int64Val(val)
		return mkStr(string(rune(i)))
	case KComplex:
		return V{r: &Native{kind: "complex"}}
	case KUnsafe, KPtr:
		return V{}
	}
	panic("const kind " + t.String())
}

func (c *comp) jump(from, to *ssa.BasicBlock) func() (int, []phiMove) {
	// resolved after all blocks are placed
	return func() (int, []phiMove) {
		idx := -1
		for i, p := range to.Preds {
			if p == from {
				idx = i
				break
			}
		}
		var mv []phiMove
		for _, in := range to.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			o := c.op(ph.Edges[idx])
			d := c.regs[ph]
			if o.i == d {
				continue
			}
			mv = append(mv, phiMove{d, o})
		}
		return c.start[to], mv
	}
}

type phiMove struct {
	d int
	o opnd
}

func (m *M) moves(mv []phiMove) {
	if len(mv) == 0 {
		return
	}
	if len(mv) == 1 {
		m.r[mv[0].d] = m.get(&mv[0].o)
		return
	}
	var tmp [16]V
	t := tmp[:0]
	for i := range mv {
		t = append(t, m.get(&mv[i].o))
	}
	for i := range mv {
		m.r[mv[i].d] = t[i]
	}
}

func (c *comp) instr(b *ssa.BasicBlock, in ssa.Instruction) {
	d := -1
	if v, ok := in.(ssa.Value); ok {
		d = c.regs[v]
	}
	T := c.P.T
	switch in := in.(type) {
	case *ssa.DebugRef:
		return
	case *ssa.Phi:
		return // handled on edges
	case *ssa.Alloc:
		n := T.Of(in.Type()).elem.size
		c.emit(func(m *M) { m.r[d] = V{r: &Obj{s: make([]V, n), epoch: m.epoch}} })
	case *ssa.BinOp:
		c.binop(in, d)
	case *ssa.UnOp:
		c.unop(in, d)
	case *ssa.Call:
		c.call(in, d)
	case *ssa.ChangeType:
		x := c.op(in.X)
		c.emit(func(m *M) { m.r[d] = m.get(&x) })
	case *ssa.ChangeInterface:
		x := c.op(in.X)
		c.emit(func(m *M) { m.r[d] = m.get(&x) })
	case *ssa.Convert:
		x := c.op(in.X)
		from, to := T.Of(in.X.Type()), T.Of(in.Type())
		if from.kind == KInt && to.kind == KInt {
			w, s := to.w, to.signed
			c.emit(func(m *M) {
				v := m.get(&x)
				if v.r == nil {
					m.r[d] = V{n: normN(v.n, w, s)}
					return
				}
				m.r[d] = m.convert(v, from, to)
			})
			return
		}
		c.emit(func(m *M) { m.r[d] = m.convert(m.get(&x), from, to) })
	case *ssa.MultiConvert:
		x := c.op(in.X)
		from, to := T.Of(in.X.Type()), T.Of(in.Type())
		c.emit(func(m *M) { m.r[d] = m.convert(m.get(&x), from, to) })
	case *ssa.SliceToArrayPointer:
		x := c.op(in.X)
		at := T.Of(in.Type()).elem
		c.emit(func(m *M) {
			v := m.get(&x)
			s, _ := v.r.(*Slice)
			if s == nil {
				if at.n == 0 {
					m.r[d] = V{}
					return
				}
				m.throwRT("cannot convert slice with length 0 to array or pointer to array")
			}
			if s.len < at.n {
				m.throwRT(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", s.len, at.n))
			}
			m.r[d] = V{r: s.o, n: uint64(s.off)}
		})
	case *ssa.MakeInterface:
		x := c.op(in.X)
		t := T.Of(in.X.Type())
		c.emit(func(m *M) { m.r[d] = V{r: &Iface{t, m.get(&x)}} })
	case *ssa.MakeClosure:
		fn := c.P.fn(in.Fn.(*ssa.Function))
		var bs []opnd
		for _, x := range in.Bindings {
			bs = append(bs, c.op(x))
		}
		c.emit(func(m *M) {
			b := make([]V, len(bs))
			for i := range bs {
				b[i] = m.get(&bs[i])
			}
			m.r[d] = V{r: &Closure{fn: fn, bind: b}}
		})
	case *ssa.MakeMap:
		t := T.Of(in.Type())
		c.emit(func(m *M) { m.r[d] = V{r: m.newMap(t.key)} })
	case *ssa.MakeChan:
		sz := c.op(in.Size)
		c.emit(func(m *M) {
			n := m.get(&sz)
			m.r[d] = V{r: m.newChan(int(n.n))}
		})
	case *ssa.MakeSlice:
		l, cp := c.op(in.Len), c.op(in.Cap)
		lt, ct := T.Of(in.Len.Type()), T.Of(in.Cap.Type())
		t := T.Of(in.Type()).elem
		c.emit(func(m *M) {
			n, k := m.conc(m.get(&l), lt), m.conc(m.get(&cp), ct)
			if n < 0 || n > 1<<40 {
				m.throwRT("makeslice: len out of range")
			}
			if k < n || k > 1<<40 {
				m.throwRT("makeslice: cap out of range")
			}
			if k*t.size > 1<<26 {
				unsupported("huge slice %d", k)
			}
			m.r[d] = V{r: &Slice{&Obj{s: make([]V, k*t.size), epoch: m.epoch}, 0, n, k}}
		})
	case *ssa.Slice:
		c.slice(in, d)
	case *ssa.FieldAddr:
		x := c.op(in.X)
		st := T.Of(in.X.Type()).elem
		off := uint64(st.offs[in.Field])
		c.emit(func(m *M) {
			v := m.get(&x)
			if o, ok := v.r.(*Obj); ok {
				m.r[d] = V{r: o, n: v.n + off}
				return
			}
			if v.r == nil {
				m.nilDeref()
			}
			if sp, ok := v.r.(*SymPtr); ok {
				q := *sp
				q.extra += int(off)
				m.r[d] = V{r: &q}
				return
			}
			unsupported("FieldAddr on %T", v.r)
		})
	case *ssa.Field:
		x := c.op(in.X)
		st := T.Of(in.X.Type())
		off, ft := st.offs[in.Field], st.fields[in.Field]
		c.emit(func(m *M) { m.r[d] = aggField(m.get(&x), off, ft) })
	case *ssa.IndexAddr:
		c.indexAddr(in, d)
	case *ssa.Index:
		x, ix := c.op(in.X), c.op(in.Index)
		xt, it := T.Of(in.X.Type()), T.Of(in.Index.Type())
		et := T.Of(in.Type())
		if xt.kind == KString {
			c.emit(func(m *M) { m.r[d] = m.strIndex(m.get(&x), m.get(&ix), it, et) })
			return
		}
		c.emit(func(m *M) {
			a := m.get(&x).r.(*Agg)
			iv := m.get(&ix)
			if t, ok := iv.r.(*Term); ok {
				m.boundsCheck(t, it, xt.n)
				vals := make([]V, xt.n)
				for i := range vals {
					vals[i] = aggField(V{r: a}, i*et.size, et)
				}
				m.r[d] = m.selectV(vals, m.tt.Resize(t, 64, it.signed), et)
				return
			}
			i := int(iv.n)
			if i < 0 || i >= xt.n {
				m.throwRT(fmt.Sprintf("index out of range [%d] with length %d", i, xt.n))
			}
			m.r[d] = aggField(V{r: a}, i*et.size, et)
		})
	case *ssa.Lookup:
		x, ix := c.op(in.X), c.op(in.Index)
		xt := T.Of(in.X.Type())
		if xt.kind == KString {
			it, et := T.Of(in.Index.Type()), T.Of(in.Type())
			c.emit(func(m *M) { m.r[d] = m.strIndex(m.get(&x), m.get(&ix), it, et) })
			return
		}
		commaok := in.CommaOk
		et := xt.elem
		c.emit(func(m *M) {
			mp, _ := m.get(&x).r.(*Map)
			v, ok := m.mapGet(mp, m.get(&ix), xt.key)
			if !ok {
				v = et.zeroV()
			}
			if commaok {
				m.r[d] = mkTuple(v, mkBool(ok))
			} else {
				m.r[d] = v
			}
		})
	case *ssa.MapUpdate:
		x, k, v := c.op(in.Map), c.op(in.Key), c.op(in.Value)
		kt := T.Of(in.Map.Type()).key
		c.emit(func(m *M) {
			mp, _ := m.get(&x).r.(*Map)
			if mp == nil {
				m.throwRTplain("assignment to entry in nil map")
			}
			m.mapSet(mp, m.get(&k), m.get(&v), kt)
		})
	case *ssa.Range:
		x := c.op(in.X)
		c.emit(func(m *M) {
			xv := m.get(&x)
			lim := 0
			if mp, ok := xv.r.(*Map); ok {
				lim = len(mp.keys)
			}
			m.r[d] = V{r: &Obj{s: []V{xv, {}, mkInt(lim)}, epoch: m.epoch}}
		})
	case *ssa.Next:
		it := c.op(in.Iter)
		if in.IsString {
			c.emit(func(m *M) { m.r[d] = m.nextStr(m.get(&it).r.(*Obj)) })
		} else {
			tup := in.Type().(*types.Tuple)
			var kt, vt *TInfo
			if tup.At(1).Type() != types.Typ[types.Invalid] {
				kt = T.Of(tup.At(1).Type())
			}
			if tup.At(2).Type() != types.Typ[types.Invalid] {
				vt = T.Of(tup.At(2).Type())
			}
			c.emit(func(m *M) { m.r[d] = m.nextMap(m.get(&it).r.(*Obj), kt, vt) })
		}
	case *ssa.TypeAssert:
		c.typeAssert(in, d)
	case *ssa.Extract:
		x := c.op(in.Tuple)
		i := in.Index
		c.emit(func(m *M) { m.r[d] = m.get(&x).r.(*Agg).s[i] })
	case *ssa.Jump:
		res := c.jump(b, b.Succs[0])
		var pc int
		var mv []phiMove
		c.fix = append(c.fix, func() { pc, mv = res() })
		c.emit(func(m *M) {
			m.moves(mv)
			m.pc = pc
		})
	case *ssa.If:
		x := c.op(in.Cond)
		r0, r1 := c.jump(b, b.Succs[0]), c.jump(b, b.Succs[1])
		var p0, p1 int
		var m0, m1 []phiMove
		c.fix = append(c.fix, func() {
			p0, m0 = r0()
			p1, m1 = r1()
		})
		c.emit(func(m *M) {
			v := m.get(&x)
			t := v.n != 0
			if v.r != nil {
				t = m.branch(v.r.(*Term))
			}
			if t {
				m.moves(m0)
				m.pc = p0
			} else {
				m.moves(m1)
				m.pc = p1
			}
		})
	case *ssa.Return:
		var rs []opnd
		for _, x := range in.Results {
			rs = append(rs, c.op(x))
		}
		switch len(rs) {
		case 0:
			c.emit(func(m *M) { m.ret(V{}) })
		case 1:
			r0 := rs[0]
			c.emit(func(m *M) { m.ret(m.get(&r0)) })
		default:
			c.emit(func(m *M) {
				vs := make([]V, len(rs))
				for i := range rs {
					vs[i] = m.get(&rs[i])
				}
				m.ret(V{r: &Agg{vs}})
			})
		}
	case *ssa.RunDefers:
		c.emit(func(m *M) {
			f := &m.frames[len(m.frames)-1]
			if f.defers == nil {
				return
			}
			dr := f.defers
			f.defers = dr.next
			m.pc-- // run again afterwards
			if dr.clo == nil {
				m.nilDeref()
			}
			m.invoke(dr.clo, dr.args, -1, fkDefer)
		})
	case *ssa.Panic:
		x := c.op(in.X)
		c.emit(func(m *M) {
			v := m.get(&x)
			m.doPanic(v, m.where())
		})
	case *ssa.Go:
		get := c.callee(&in.Call)
		c.emit(func(m *M) {
			clo, args := get(m)
			m.spawn(clo, args)
		})
	case *ssa.Defer:
		get := c.callee(&in.Call)
		if in.DeferStack != nil {
			ds := c.op(in.DeferStack)
			c.emit(func(m *M) {
				clo, args := get(m)
				idx := int(m.get(&ds).n)
				f := &m.frames[idx]
				f.defers = &deferRec{clo, args, f.defers}
			})
			return
		}
		c.emit(func(m *M) {
			clo, args := get(m)
			f := &m.frames[len(m.frames)-1]
			f.defers = &deferRec{clo, args, f.defers}
		})
	case *ssa.Send:
		ch, x := c.op(in.Chan), c.op(in.X)
		c.emit(func(m *M) { m.chanSend(m.get(&ch), m.get(&x)) })
	case *ssa.Select:
		c.emit(func(m *M) { unsupported("select") })
	case *ssa.Store:
		a, v := c.op(in.Addr), c.op(in.Val)
		t := T.Of(in.Addr.Type()).elem
		if !t.agg() {
			c.emit(func(m *M) {
				p := m.get(&a)
				if o, ok := p.r.(*Obj); ok && int(p.n) < len(o.s) {
					if o.epoch < m.epoch {
						m.touch(o, int(p.n))
					}
					o.s[p.n] = m.get(&v)
					return
				}
				m.store(p, m.get(&v), t)
			})
			return
		}
		c.emit(func(m *M) { m.store(m.get(&a), m.get(&v), t) })
	default:
		panic(fmt.Sprintf("instr %T", in))
	}
}

func (m *M) throwRTplain(msg string) {
	// runtime.plainError panics are also runtime.Error; close enough.
	m.throwRT(msg)
}

func (c *comp) indexAddr(in *ssa.IndexAddr, d int) {
	T := c.P.T
	x, ix := c.op(in.X), c.op(in.Index)
	xt, it := T.Of(in.X.Type()), T.Of(in.Index.Type())
	if xt.kind == KSlice {
		esz := xt.elem.size
		c.emit(func(m *M) {
			s, _ := m.get(&x).r.(*Slice)
			iv := m.get(&ix)
			if iv.r == nil {
				i := int(iv.n)
				if s == nil {
					m.throwRT(fmt.Sprintf("index out of range [%d] with length 0", i))
				}
				if uint(i) >= uint(s.len) {
					m.throwRT(fmt.Sprintf("index out of range [%d] with length %d", i, s.len))
				}
				m.r[d] = V{r: s.o, n: uint64(s.off + i*esz)}
				return
			}
			n := 0
			if s != nil {
				n = s.len
			}
			t := iv.r.(*Term)
			m.boundsCheck(t, it, n)
			t = m.tt.Resize(t, 64, it.signed)
			m.r[d] = V{r: &SymPtr{o: s.o, off: s.off, esz: esz, n: n, idx: t}}
		})
		return
	}
	// pointer to array
	at := xt.elem
	esz := at.elem.size
	c.emit(func(m *M) {
		p := m.get(&x)
		iv := m.get(&ix)
		if p.r == nil {
			m.nilDeref()
		}
		o, ok := p.r.(*Obj)
		if !ok {
			if sp, ok2 := p.r.(*SymPtr); ok2 {
				p = m.concPtr(sp)
				o = p.r.(*Obj)
			} else {
				unsupported("IndexAddr on %T", p.r)
			}
		}
		if iv.r == nil {
			i := int(iv.n)
			if uint(i) >= uint(at.n) {
				m.throwRT(fmt.Sprintf("index out of range [%d] with length %d", i, at.n))
			}
			m.r[d] = V{r: o, n: p.n + uint64(i*esz)}
			return
		}
		t := iv.r.(*Term)
		m.boundsCheck(t, it, at.n)
		t = m.tt.Resize(t, 64, it.signed)
		m.r[d] = V{r: &SymPtr{o: o, off: int(p.n), esz: esz, n: at.n, idx: t}}
	})
}

// boundsCheck panics (forking if needed) unless 0 <= t < n.
func (m *M) boundsCheck(t *Term, it *TInfo, n int) {
	c := m.tt.Bin(OUlt, m.tt.Resize(t, 64, it.signed), m.tt.Const(uint64(n), 64))
	if !m.branch(c) {
		m.throwRT("index out of range [symbolic]")
	}
}

func (m *M) strIndex(s, iv V, it, et *TInfo) V {
	n := strLen(s)
	if iv.r == nil {
		i := int(iv.n)
		if uint(i) >= uint(n) {
			m.throwRT(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		st := s.r.(*Str)
		if st.sym != nil {
			return st.sym[i]
		}
		return V{n: uint64(st.s[i])}
	}
	t := iv.r.(*Term)
	m.boundsCheck(t, it, n)
	return m.selectV(strBytes(s), m.tt.Resize(t, 64, it.signed), et)
}

func (c *comp) slice(in *ssa.Slice, d int) {
	T := c.P.T
	x := c.op(in.X)
	xt := T.Of(in.X.Type())
	opt := func(v ssa.Value) (*opnd, *TInfo) {
		if v == nil {
			return nil, nil
		}
		o := c.op(v)
		return &o, T.Of(v.Type())
	}
	lo, lt := opt(in.Low)
	hi, ht := opt(in.High)
	mx, mt := opt(in.Max)
	c.emit(func(m *M) {
		v := m.get(&x)
		l, h, k := 0, -1, -1
		if lo != nil {
			l = m.conc(m.get(lo), lt)
		}
		if hi != nil {
			h = m.conc(m.get(hi), ht)
		}
		if mx != nil {
			k = m.conc(m.get(mx), mt)
		}
		switch xt.kind {
		case KString:
			n := strLen(v)
			if hi == nil {
				h = n
			}
			if h < 0 || h > n {
				m.throwRT(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
			}
			if l < 0 || l > h {
				m.throwRT(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
			}
			m.r[d] = subStr(v, l, h)
		case KSlice:
			s, _ := v.r.(*Slice)
			esz := xt.elem.size
			cp, ln := 0, 0
			if s != nil {
				cp, ln = s.cap, s.len
			}
			if hi == nil {
				h = ln
			}
			if mx == nil {
				k = cp
			}
			m.checkSlice(l, h, k, cp, mx != nil)
			if s == nil {
				m.r[d] = V{}
				return
			}
			m.r[d] = V{r: &Slice{s.o, s.off + l*esz, h - l, k - l}}
		case KPtr:
			at := xt.elem
			if v.r == nil {
				m.nilDeref()
			}
			o, ok := v.r.(*Obj)
			if !ok {
				unsupported("slice of %T", v.r)
			}
			if hi == nil {
				h = at.n
			}
			if mx == nil {
				k = at.n
			}
			m.checkSlice(l, h, k, at.n, mx != nil)
			m.r[d] = V{r: &Slice{o, int(v.n) + l*at.elem.size, h - l, k - l}}
		default:
			unsupported("slice of %s", xt)
		}
	})
}

func (m *M) checkSlice(l, h, k, cp int, three bool) {
	if three && (k < 0 || k > cp) {
		m.throwRT(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", k, cp))
	}
	if h < 0 || h > k {
		m.throwRT(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, k))
	}
	if l < 0 || l > h {
		m.throwRT(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
	}
}

func subStr(v V, l, h int) V {
	if l == h {
		return V{}
	}
	s := v.r.(*Str)
	if s.sym != nil {
		return mkSymStr(s.sym[l:h])
	}
	if l == 0 && h == len(s.s) {
		return v
	}
	return V{r: &Str{s: s.s[l:h]}}
}

func (c *comp) typeAssert(in *ssa.TypeAssert, d int) {
	T := c.P.T
	x := c.op(in.X)
	at := T.Of(in.AssertedType)
	commaok := in.CommaOk
	xs := T.Of(in.X.Type())
	if at.kind == KIface {
		it := at.t.Underlying().(*types.Interface)
		c.emit(func(m *M) {
			v := m.get(&x)
			i, _ := v.r.(*Iface)
			ok := i != nil && m.P.implements(i.t, at, it)
			if commaok {
				if !ok {
					v = V{}
				}
				m.r[d] = mkTuple(v, mkBool(ok))
				return
			}
			if !ok {
				m.typeAssertFail(xs, i, at)
			}
			m.r[d] = v
		})
		return
	}
	c.emit(func(m *M) {
		v := m.get(&x)
		i, _ := v.r.(*Iface)
		ok := i != nil && i.t == at
		if commaok {
			if ok {
				m.r[d] = mkTuple(i.v, mkBool(true))
			} else {
				m.r[d] = mkTuple(at.zeroV(), V{})
			}
			return
		}
		if !ok {
			m.typeAssertFail(xs, i, at)
		}
		m.r[d] = i.v
	})
}

func (m *M) typeAssertFail(xs *TInfo, i *Iface, at *TInfo) {
	dyn := "nil"
	if i != nil {
		dyn = i.t.reflString()
	}
	m.throwRT(fmt.Sprintf("interface conversion: %s is %s, not %s", xs.reflString(), dyn, at.reflString()))
}

type implKey struct{ t, i *TInfo }

var implCache sync.Map

func (P *Prog) implements(t, it *TInfo, i *types.Interface) bool {
	k := implKey{t, it}
	if v, ok := implCache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t.t, i)
	implCache.Store(k, r)
	return r
}

// method finds the function implementing method mth for dynamic type t.
func (P *Prog) method(t *TInfo, mth *types.Func) *Fn {
	key := mth.Id()
	t.mu.Lock()
	if f, ok := t.methods[key]; ok {
		t.mu.Unlock()
		return f
	}
	t.mu.Unlock()
	P.mu.Lock()
	sel := P.prog.MethodSets.MethodSet(t.t).Lookup(mth.Pkg(), mth.Name())
	var f *ssa.Function
	if sel != nil {
		f = P.prog.MethodValue(sel)
	}
	P.mu.Unlock()
	if f == nil {
		return nil
	}
	fn := P.fn(f)
	t.mu.Lock()
	if t.methods == nil {
		t.methods = map[string]*Fn{}
	}
	t.methods[key] = fn
	t.mu.Unlock()
	return fn
}

// callee resolves a call's closure and args at run time (for go/defer).
func (c *comp) callee(cc *ssa.CallCommon) func(m *M) (*Closure, []V) {
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	ev := func(m *M, extra int) []V {
		vs := make([]V, extra, len(args)+extra)
		for i := range args {
			vs = append(vs, m.get(&args[i]))
		}
		return vs
	}
	if cc.IsInvoke() {
		x := c.op(cc.Value)
		mth := cc.Method
		return func(m *M) (*Closure, []V) {
			i, _ := m.get(&x).r.(*Iface)
			if i == nil {
				m.nilDeref()
			}
			fn := m.P.method(i.t, mth)
			if fn == nil {
				unsupported("no method %s on %s", mth.Name(), i.t)
			}
			vs := ev(m, 1)
			vs[0] = i.v
			return fn.clo, vs
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		f := c.builtin(b, cc)
		return func(m *M) (*Closure, []V) {
			return &Closure{name: b.Name(), native: func(m *M, a []V) V { return f(m, a) }}, ev(m, 0)
		}
	}
	if fn, ok := cc.Value.(*ssa.Function); ok {
		clo := c.P.fn(fn).clo
		return func(m *M) (*Closure, []V) { return clo, ev(m, 0) }
	}
	x := c.op(cc.Value)
	return func(m *M) (*Closure, []V) {
		clo, _ := m.get(&x).r.(*Closure)
		return clo, ev(m, 0)
	}
}

func (c *comp) call(in *ssa.Call, d int) {
	cc := &in.Call
	ret := int32(d)
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, c.op(a))
	}
	na := len(args)
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		if b.Name() == "ssa:deferstack" {
			c.emit(func(m *M) { m.r[d] = V{n: uint64(len(m.frames) - 1)} })
			return
		}
		f := c.builtin(b, cc)
		c.emit(func(m *M) {
			var buf [6]V
			vs := buf[:0]
			for i := range args {
				vs = append(vs, m.get(&args[i]))
			}
			m.r[d] = f(m, vs)
		})
		return
	}
	if cc.IsInvoke() {
		x := c.op(cc.Value)
		mth := cc.Method
		var lastT *TInfo
		var lastFn *Fn
		_ = lastT
		_ = lastFn
		c.emit(func(m *M) {
			i, _ := m.get(&x).r.(*Iface)
			if i == nil {
				m.nilDeref()
			}
			fn := m.P.method(i.t, mth)
			if fn == nil {
				unsupported("no method %s on %s", mth.Name(), i.t)
			}
			if fn.native != nil {
				vs := make([]V, na+1)
				vs[0] = i.v
				for k := range args {
					vs[k+1] = m.get(&args[k])
				}
				m.invoke(fn.clo, vs, ret, fkCall)
				return
			}
			var buf [12]V
			vs := append(buf[:0], i.v)
			for k := range args {
				vs = append(vs, m.get(&args[k]))
			}
			m.push(fn, vs, nil, ret, fkCall)
		})
		return
	}
	if f, ok := cc.Value.(*ssa.Function); ok {
		fn := c.P.fn(f)
		if fn.native != nil {
			c.emit(func(m *M) {
				vs := make([]V, na)
				for k := range args {
					vs[k] = m.get(&args[k])
				}
				m.invoke(fn.clo, vs, ret, fkCall)
			})
			return
		}
		c.emit(func(m *M) {
			var buf [12]V
			vs := buf[:0]
			for k := range args {
				vs = append(vs, m.get(&args[k]))
			}
			m.push(fn, vs, nil, ret, fkCall)
		})
		return
	}
	x := c.op(cc.Value)
	c.emit(func(m *M) {
		clo, _ := m.get(&x).r.(*Closure)
		if clo == nil {
			m.nilDeref()
		}
		vs := make([]V, na)
		for k := range args {
			vs[k] = m.get(&args[k])
		}
		m.invoke(clo, vs, ret, fkCall)
	})
}
