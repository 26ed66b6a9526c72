package main

import (
	"encoding/binary"
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (c *comp) binop(in *ssa.BinOp, d int) {
	T := c.P.T
	a, b := c.op(in.X), c.op(in.Y)
	t := T.Of(in.X.Type())
	yt := T.Of(in.Y.Type())
	op := in.Op
	if t.kind == KInt && op != token.SHL && op != token.SHR {
		w, s := t.w, t.signed
		slow := func(m *M, x, y V) { m.r[d] = m.intBin(op, x, y, t) }
		switch op {
		case token.ADD:
			c.emit(func(m *M) {
				x, y := m.get(&a), m.get(&b)
				if x.r == nil && y.r == nil {
					m.r[d] = V{n: normN(x.n+y.n, w, s)}
					return
				}
				slow(m, x, y)
			})
			return
		case token.SUB:
			c.emit(func(m *M) {
				x, y := m.get(&a), m.get(&b)
				if x.r == nil && y.r == nil {
					m.r[d] = V{n: normN(x.n-y.n, w, s)}
					return
				}
				slow(m, x, y)
			})
			return
		case token.EQL:
			c.emit(func(m *M) {
				x, y := m.get(&a), m.get(&b)
				if x.r == nil && y.r == nil {
					m.r[d] = mkBool(x.n == y.n)
					return
				}
				slow(m, x, y)
			})
			return
		case token.NEQ:
			c.emit(func(m *M) {
				x, y := m.get(&a), m.get(&b)
				if x.r == nil && y.r == nil {
					m.r[d] = mkBool(x.n != y.n)
					return
				}
				slow(m, x, y)
			})
			return
		case token.LSS:
			c.emit(func(m *M) {
				x, y := m.get(&a), m.get(&b)
				if x.r == nil && y.r == nil {
					if s {
						m.r[d] = mkBool(int64(x.n) < int64(y.n))
					} else {
						m.r[d] = mkBool(x.n < y.n)
					}
					return
				}
				slow(m, x, y)
			})
			return
		}
		c.emit(func(m *M) { slow(m, m.get(&a), m.get(&b)) })
		return
	}
	switch op {
	case token.SHL, token.SHR:
		c.emit(func(m *M) { m.r[d] = m.shift(op, m.get(&a), m.get(&b), t, yt) })
		return
	case token.EQL:
		if t.kind == KPtr {
			c.emit(func(m *M) { m.r[d] = mkBool(ptrEq(m, m.get(&a), m.get(&b))) })
			return
		}
		c.emit(func(m *M) { m.r[d] = m.eq(m.get(&a), m.get(&b), t) })
		return
	case token.NEQ:
		if t.kind == KPtr {
			c.emit(func(m *M) { m.r[d] = mkBool(!ptrEq(m, m.get(&a), m.get(&b))) })
			return
		}
		c.emit(func(m *M) { m.r[d] = m.notV(m.eq(m.get(&a), m.get(&b), t)) })
		return
	}
	switch t.kind {
	case KFloat:
		c.emit(func(m *M) { m.r[d] = m.floatBin(op, m.get(&a), m.get(&b), t) })
	case KString:
		c.emit(func(m *M) { m.r[d] = m.strBin(op, m.get(&a), m.get(&b)) })
	case KBool:
		c.emit(func(m *M) {
			x, y := m.asTerm(m.get(&a), t), m.asTerm(m.get(&b), t)
			switch op {
			case token.AND, token.LAND:
				m.r[d] = m.boolV(m.tt.And(x, y))
			case token.OR, token.LOR:
				m.r[d] = m.boolV(m.tt.Or(x, y))
			case token.XOR:
				m.r[d] = m.boolV(m.tt.Not(m.tt.Bin(OEq, x, y)))
			default:
				unsupported("bool op %s", op)
			}
		})
	default:
		ts := t.String()
		c.emit(func(m *M) { unsupported("binop %s on %s", op, ts) })
	}
}

func ptrEq(m *M, x, y V) bool {
	if sp, ok := x.r.(*SymPtr); ok {
		x = m.concPtr(sp)
	}
	if sp, ok := y.r.(*SymPtr); ok {
		y = m.concPtr(sp)
	}
	return x == y
}

func (m *M) notV(v V) V {
	if v.r == nil {
		return V{n: v.n ^ 1}
	}
	return m.boolV(m.tt.Not(v.r.(*Term)))
}

func (m *M) intBin(op token.Token, x, y V, t *TInfo) V {
	if x.r == nil && y.r == nil {
		a, b := x.n, y.n
		sg := t.signed
		switch op {
		case token.MUL:
			return V{n: normN(a*b, t.w, sg)}
		case token.QUO, token.REM:
			if b == 0 {
				m.throwRT("integer divide by zero")
			}
			if sg {
				if int64(b) == -1 {
					if op == token.QUO {
						return V{n: normN(-a, t.w, sg)}
					}
					return V{}
				}
				if op == token.QUO {
					return V{n: normN(uint64(int64(a)/int64(b)), t.w, sg)}
				}
				return V{n: normN(uint64(int64(a)%int64(b)), t.w, sg)}
			}
			if op == token.QUO {
				return V{n: a / b}
			}
			return V{n: a % b}
		case token.AND:
			return V{n: a & b}
		case token.OR:
			return V{n: a | b}
		case token.XOR:
			return V{n: normN(a^b, t.w, sg)}
		case token.AND_NOT:
			return V{n: normN(a&^b, t.w, sg)}
		case token.ADD:
			return V{n: normN(a+b, t.w, sg)}
		case token.SUB:
			return V{n: normN(a-b, t.w, sg)}
		case token.EQL:
			return mkBool(a == b)
		case token.NEQ:
			return mkBool(a != b)
		}
		if sg {
			p, q := int64(a), int64(b)
			switch op {
			case token.LSS:
				return mkBool(p < q)
			case token.LEQ:
				return mkBool(p <= q)
			case token.GTR:
				return mkBool(p > q)
			case token.GEQ:
				return mkBool(p >= q)
			}
		}
		switch op {
		case token.LSS:
			return mkBool(a < b)
		case token.LEQ:
			return mkBool(a <= b)
		case token.GTR:
			return mkBool(a > b)
		case token.GEQ:
			return mkBool(a >= b)
		}
		unsupported("int op %s", op)
	}
	// pointers compared/computed as uintptr
	if (x.r != nil && !isSym(x)) || (y.r != nil && !isSym(y)) {
		switch op {
		case token.EQL:
			return mkBool(x == y)
		case token.NEQ:
			return mkBool(x != y)
		case token.XOR:
			if y.r == nil && y.n == 0 {
				return x
			}
		}
		unsupported("int op %s on pointer value", op)
	}
	a, b := m.asTerm(x, t), m.asTerm(y, t)
	tt := m.tt
	switch op {
	case token.ADD:
		return m.fromTerm(tt.Bin(OAdd, a, b), t)
	case token.SUB:
		return m.fromTerm(tt.Bin(OSub, a, b), t)
	case token.MUL:
		return m.fromTerm(tt.Bin(OMul, a, b), t)
	case token.QUO, token.REM:
		if m.branch(tt.Bin(OEq, b, tt.Const(0, t.w))) {
			m.throwRT("integer divide by zero")
		}
		o := OUDiv
		switch {
		case op == token.QUO && t.signed:
			o = OSDiv
		case op == token.REM && t.signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return m.fromTerm(tt.Bin(o, a, b), t)
	case token.AND:
		return m.fromTerm(tt.Bin(OAnd, a, b), t)
	case token.OR:
		return m.fromTerm(tt.Bin(OOr, a, b), t)
	case token.XOR:
		return m.fromTerm(tt.Bin(OXor, a, b), t)
	case token.AND_NOT:
		return m.fromTerm(tt.Bin(OAnd, a, tt.Un(ONot, b)), t)
	case token.EQL:
		return m.boolV(tt.Bin(OEq, a, b))
	case token.NEQ:
		return m.boolV(tt.Not(tt.Bin(OEq, a, b)))
	}
	lt, le := OUlt, OUle
	if t.signed {
		lt, le = OSlt, OSle
	}
	switch op {
	case token.LSS:
		return m.boolV(tt.Bin(lt, a, b))
	case token.LEQ:
		return m.boolV(tt.Bin(le, a, b))
	case token.GTR:
		return m.boolV(tt.Bin(lt, b, a))
	case token.GEQ:
		return m.boolV(tt.Bin(le, b, a))
	}
	unsupported("int op %s", op)
	return V{}
}

func (m *M) shift(op token.Token, x, y V, t, yt *TInfo) V {
	if x.r == nil && y.r == nil {
		if yt.signed && int64(y.n) < 0 {
			m.throwRT("negative shift amount")
		}
		s := y.n
		if op == token.SHL {
			if s >= 64 {
				return V{}
			}
			return V{n: normN(x.n<<s, t.w, t.signed)}
		}
		if t.signed {
			if s > 63 {
				s = 63
			}
			return V{n: uint64(int64(x.n) >> s)}
		}
		if s >= 64 {
			return V{}
		}
		return V{n: x.n >> s}
	}
	a := m.asTerm(x, t)
	var b *Term
	if y.r == nil {
		if yt.signed && int64(y.n) < 0 {
			m.throwRT("negative shift amount")
		}
		k := y.n
		if k > 64 {
			k = 64
		}
		if k >= uint64(t.w) && t.w < 64 {
			k = uint64(t.w)
		}
		if k == 64 && t.w == 64 {
			if op == token.SHR && t.signed {
				k = 63
			} else {
				return V{}
			}
		}
		b = m.tt.Const(k, t.w)
	} else {
		yb := m.asTerm(y, yt)
		if yt.signed && m.branch(m.tt.Bin(OSlt, yb, m.tt.Const(0, yt.w))) {
			m.throwRT("negative shift amount")
		}
		y64 := m.tt.Resize(yb, 64, false)
		big := m.tt.Bin(OUle, m.tt.Const(uint64(t.w), 64), y64)
		if m.branch(big) {
			if op == token.SHR && t.signed {
				return m.fromTerm(m.tt.Bin(OAshr, a, m.tt.Const(uint64(t.w-1), t.w)), t)
			}
			return V{}
		}
		b = m.tt.Resize(y64, t.w, false)
	}
	o := OShl
	if op == token.SHR {
		o = OLshr
		if t.signed {
			o = OAshr
		}
	}
	return m.fromTerm(m.tt.Bin(o, a, b), t)
}

func fl(v V) float64 {
	if v.r != nil {
		unsupported("symbolic float")
	}
	return math.Float64frombits(v.n)
}

func mkFloat(f float64, t *TInfo) V {
	if t != nil && t.w == 32 {
		f = float64(float32(f))
	}
	return V{n: math.Float64bits(f)}
}

func (m *M) floatBin(op token.Token, a, b V, t *TInfo) V {
	x, y := fl(a), fl(b)
	switch op {
	case token.ADD:
		return mkFloat(x+y, t)
	case token.SUB:
		return mkFloat(x-y, t)
	case token.MUL:
		return mkFloat(x*y, t)
	case token.QUO:
		return mkFloat(x/y, t)
	case token.LSS:
		return mkBool(x < y)
	case token.LEQ:
		return mkBool(x <= y)
	case token.GTR:
		return mkBool(x > y)
	case token.GEQ:
		return mkBool(x >= y)
	}
	unsupported("float op %s", op)
	return V{}
}

func (m *M) strConcat(a, b V) V {
	if a.r == nil {
		return b
	}
	if b.r == nil {
		return a
	}
	x, okx := strC(a)
	y, oky := strC(b)
	if okx && oky {
		return mkStr(x + y)
	}
	bs := append(append([]V(nil), strBytes(a)...), strBytes(b)...)
	return mkSymStr(bs)
}

var byteT = &TInfo{kind: KInt, w: 8, size: 1}

func (m *M) strEq(a, b V) V {
	x, okx := strC(a)
	y, oky := strC(b)
	if okx && oky {
		return mkBool(x == y)
	}
	if strLen(a) != strLen(b) {
		return V{}
	}
	p, q := strBytes(a), strBytes(b)
	acc := m.tt.T
	for i := range p {
		acc = m.tt.And(acc, m.tt.Bin(OEq, m.asTerm(p[i], byteT), m.asTerm(q[i], byteT)))
		if isC(acc) && acc.k == 0 {
			return V{}
		}
	}
	return m.boolV(acc)
}

// strCmp compares, forking as needed.
func (m *M) strLess(a, b V, orEq bool) V {
	x, okx := strC(a)
	y, oky := strC(b)
	if okx && oky {
		if orEq {
			return mkBool(x <= y)
		}
		return mkBool(x < y)
	}
	p, q := strBytes(a), strBytes(b)
	n := len(p)
	if len(q) < n {
		n = len(q)
	}
	var acc *Term
	if len(p) < len(q) || (len(p) == len(q) && orEq) {
		acc = m.tt.T
	} else {
		acc = m.tt.F
	}
	for i := n - 1; i >= 0; i-- {
		s, t := m.asTerm(p[i], byteT), m.asTerm(q[i], byteT)
		acc = m.tt.Or(m.tt.Bin(OUlt, s, t), m.tt.And(m.tt.Bin(OEq, s, t), acc))
	}
	return m.boolV(acc)
}

func (m *M) strBin(op token.Token, a, b V) V {
	switch op {
	case token.ADD:
		return m.strConcat(a, b)
	case token.LSS:
		return m.strLess(a, b, false)
	case token.LEQ:
		return m.strLess(a, b, true)
	case token.GTR:
		return m.strLess(b, a, false)
	case token.GEQ:
		return m.strLess(b, a, true)
	}
	unsupported("string op %s", op)
	return V{}
}

// eq returns the (possibly symbolic) equality of two values of type t.
func (m *M) eq(a, b V, t *TInfo) V {
	switch t.kind {
	case KInt:
		return m.intBin(token.EQL, a, b, t)
	case KBool:
		if a.r == nil && b.r == nil {
			return mkBool(a.n == b.n)
		}
		return m.boolV(m.tt.Bin(OEq, m.asTerm(a, t), m.asTerm(b, t)))
	case KFloat:
		return mkBool(fl(a) == fl(b))
	case KString:
		return m.strEq(a, b)
	case KIface:
		x, _ := a.r.(*Iface)
		y, _ := b.r.(*Iface)
		if x == nil || y == nil {
			return mkBool(x == nil && y == nil)
		}
		if x.t != y.t {
			return V{}
		}
		if !types.Comparable(x.t.t) {
			m.throwRT("comparing uncomparable type " + x.t.reflString())
		}
		return m.eq(x.v, y.v, x.t)
	case KPtr, KUnsafe:
		return mkBool(ptrEq(m, a, b))
	case KMap, KChan, KFunc, KSlice:
		return mkBool(a.r == b.r)
	case KStruct:
		acc := m.tt.T
		st, _ := t.under.(*types.Struct)
		for i, ft := range t.fields {
			if st != nil && st.Field(i).Name() == "_" {
				continue
			}
			e := m.eq(aggField(a, t.offs[i], ft), aggField(b, t.offs[i], ft), ft)
			acc = m.tt.And(acc, m.asTerm(e, boolT))
			if isC(acc) && acc.k == 0 {
				return V{}
			}
		}
		return m.boolV(acc)
	case KArray:
		acc := m.tt.T
		for i := 0; i < t.n; i++ {
			e := m.eq(aggField(a, i*t.elem.size, t.elem), aggField(b, i*t.elem.size, t.elem), t.elem)
			acc = m.tt.And(acc, m.asTerm(e, boolT))
			if isC(acc) && acc.k == 0 {
				return V{}
			}
		}
		return m.boolV(acc)
	}
	unsupported("eq on %s", t)
	return V{}
}

var boolT = &TInfo{kind: KBool, size: 1}

func (c *comp) unop(in *ssa.UnOp, d int) {
	T := c.P.T
	x := c.op(in.X)
	t := T.Of(in.Type())
	switch in.Op {
	case token.MUL:
		if t.kind == KString {
			c.emit(func(m *M) {
				p := m.get(&x)
				var v V
				if o, ok := p.r.(*Obj); ok && int(p.n) < len(o.s) {
					v = o.s[p.n]
				} else {
					v = m.load(p, t)
				}
				if _, ok := v.r.(*Slice); ok { // *(*string)(unsafe.Pointer(&bytes))
					_, b := sliceV(v)
					v = bytesToStr(b)
				}
				m.r[d] = v
			})
			return
		}
		if !t.agg() {
			c.emit(func(m *M) {
				p := m.get(&x)
				if o, ok := p.r.(*Obj); ok && int(p.n) < len(o.s) {
					m.r[d] = o.s[p.n]
					return
				}
				m.r[d] = m.load(p, t)
			})
			return
		}
		c.emit(func(m *M) { m.r[d] = m.load(m.get(&x), t) })
	case token.NOT:
		c.emit(func(m *M) { m.r[d] = m.notV(m.get(&x)) })
	case token.SUB:
		if t.kind == KFloat {
			c.emit(func(m *M) { m.r[d] = mkFloat(-fl(m.get(&x)), t) })
			return
		}
		c.emit(func(m *M) {
			v := m.get(&x)
			if v.r == nil {
				m.r[d] = V{n: normN(-v.n, t.w, t.signed)}
				return
			}
			m.r[d] = m.fromTerm(m.tt.Un(ONeg, m.asTerm(v, t)), t)
		})
	case token.XOR:
		c.emit(func(m *M) {
			v := m.get(&x)
			if v.r == nil {
				m.r[d] = V{n: normN(^v.n, t.w, t.signed)}
				return
			}
			m.r[d] = m.fromTerm(m.tt.Un(ONot, m.asTerm(v, t)), t)
		})
	case token.ARROW:
		commaok := in.CommaOk
		c.emit(func(m *M) { m.r[d] = m.chanRecv(m.get(&x), commaok) })
	default:
		panic("unop " + in.Op.String())
	}
}

func (m *M) convert(v V, from, to *TInfo) V {
	switch {
	case from.kind == KInt && to.kind == KInt:
		if v.r == nil {
			return V{n: normN(v.n, to.w, to.signed)}
		}
		if !isSym(v) {
			return v // pointer carried as uintptr
		}
		return m.fromTerm(m.tt.Resize(v.r.(*Term), to.w, from.signed), to)
	case from.kind == KInt && to.kind == KFloat:
		if v.r != nil {
			unsupported("symbolic int to float")
		}
		if from.signed {
			return mkFloat(float64(int64(v.n)), to)
		}
		return mkFloat(float64(v.n), to)
	case from.kind == KFloat && to.kind == KInt:
		f := fl(v)
		if to.signed {
			return V{n: normN(uint64(int64(f)), to.w, true)}
		}
		return V{n: normN(uint64(f), to.w, false)}
	case from.kind == KFloat && to.kind == KFloat:
		return mkFloat(fl(v), to)
	case from.kind == KInt && to.kind == KString:
		if v.r != nil {
			return m.runeToStr(v, from)
		}
		n := int64(v.n)
		if n < 0 || n > utf8.MaxRune {
			n = utf8.RuneError
		}
		return mkStr(string(rune(n)))
	case from.kind == KString && to.kind == KSlice && to.elem.kind == KInt && to.elem.w == 8:
		n := strLen(v)
		o := m.alloc(n)
		copy(o.s, strBytes(v))
		return V{r: &Slice{o, 0, n, n}}
	case from.kind == KSlice && to.kind == KString && from.elem.kind == KInt && from.elem.w == 8:
		s, _ := v.r.(*Slice)
		if s == nil {
			return V{}
		}
		return bytesToStr(s.o.s[s.off : s.off+s.len])
	case from.kind == KString && to.kind == KSlice: // []rune
		var rs []V
		pos := 0
		for pos < strLen(v) {
			r, w := m.decodeRune(v, pos)
			rs = append(rs, r)
			pos += w
		}
		return V{r: &Slice{&Obj{s: rs, epoch: m.epoch}, 0, len(rs), len(rs)}}
	case from.kind == KSlice && to.kind == KString: // []rune -> string
		s, _ := v.r.(*Slice)
		if s == nil {
			return V{}
		}
		r := V{}
		for i := 0; i < s.len; i++ {
			x := s.o.s[s.off+i]
			if x.r != nil {
				r = m.strConcat(r, m.runeToStr(x, from.elem))
			} else {
				r = m.strConcat(r, mkStr(string(rune(int32(x.n)))))
			}
		}
		return r
	case to.kind == KUnsafe || from.kind == KUnsafe:
		return v
	case from.kind == to.kind:
		return v
	case from.kind == KSlice && to.kind == KArray:
		s, _ := v.r.(*Slice)
		if s == nil || s.len < to.n {
			m.throwRT("cannot convert slice to array")
		}
		return m.load(V{r: s.o, n: uint64(s.off)}, to)
	}
	unsupported("convert %s -> %s", from, to)
	return V{}
}

func bytesToStr(b []V) V {
	if len(b) == 0 {
		return V{}
	}
	for i := range b {
		if b[i].r != nil {
			return V{r: &Str{sym: append([]V(nil), b...)}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].n)
	}
	return V{r: &Str{s: string(bs)}}
}

func (m *M) runeToStr(v V, t *TInfo) V {
	x := m.asTerm(v, t)
	if m.branch(m.tt.Bin(OUlt, x, m.tt.Const(0x80, x.w))) {
		return mkSymStr([]V{m.fromTerm(m.tt.Resize(x, 8, false), byteT)})
	}
	n := int64(normN(m.concretize(x), t.w, t.signed))
	if n < 0 || n > utf8.MaxRune {
		n = utf8.RuneError
	}
	return mkStr(string(rune(n)))
}

var runeT = &TInfo{kind: KInt, w: 32, signed: true, size: 1}

// decodeRune decodes at pos; forks when the bytes are symbolic.
func (m *M) decodeRune(s V, pos int) (V, int) {
	st := s.r.(*Str)
	if st.sym == nil {
		r, w := utf8.DecodeRuneInString(st.s[pos:])
		return V{n: uint64(int64(r))}, w
	}
	b0 := st.sym[pos]
	if b0.r != nil {
		x := b0.r.(*Term)
		if m.branch(m.tt.Bin(OUlt, x, m.tt.Const(0x80, 8))) {
			return m.fromTerm(m.tt.Resize(x, 32, false), runeT), 1
		}
	} else if b0.n < 0x80 {
		return V{n: b0.n}, 1
	}
	var buf []byte
	for i := pos; i < len(st.sym) && i < pos+4; i++ {
		b := st.sym[i]
		if b.r != nil {
			buf = append(buf, byte(m.concretize(b.r.(*Term))))
		} else {
			buf = append(buf, byte(b.n))
		}
		if utf8.FullRune(buf) {
			break
		}
	}
	r, w := utf8.DecodeRune(buf)
	return V{n: uint64(int64(r))}, w
}

func (m *M) nextStr(it *Obj) V {
	s := it.s[0]
	pos := int(it.s[1].n)
	if pos >= strLen(s) {
		return mkTuple(V{}, V{}, V{})
	}
	r, w := m.decodeRune(s, pos)
	m.set(it, 1, mkInt(pos+w))
	return mkTuple(mkBool(true), mkInt(pos), r)
}

func (m *M) nextMap(it *Obj, kt, vt *TInfo) V {
	mp, _ := it.s[0].r.(*Map)
	z := func(t *TInfo) V {
		if t == nil {
			return V{}
		}
		return t.zeroV()
	}
	if mp == nil {
		return mkTuple(V{}, z(kt), z(vt))
	}
	pos := int(it.s[1].n)
	lim := int(it.s[2].n) // entries added during the iteration are not visited
	if lim > len(mp.keys) {
		lim = len(mp.keys)
	}
	for pos < lim && !mp.live[pos] {
		pos++
	}
	if pos >= lim {
		return mkTuple(V{}, z(kt), z(vt))
	}
	m.set(it, 1, mkInt(pos+1))
	return mkTuple(mkBool(true), mp.keys[pos], mp.vals[pos])
}

// ---- maps

func (m *M) newMap(kt *TInfo) *Map {
	return &Map{epoch: m.epoch, idx: map[mkey]int{}, kt: kt}
}

func (m *M) objID(o *Obj) uint32 {
	if o.id == 0 {
		m.nextID++
		o.id = m.nextID
	}
	return o.id
}

// mapKey gives a hashable form; ok=false if the key has symbolic parts.
func (m *M) mapKey(k V, t *TInfo) (mkey, bool) {
	switch t.kind {
	case KInt, KBool:
		if k.r != nil {
			if isSym(k) {
				return mkey{}, false
			}
			return mkey{p: k.r, n: k.n}, true
		}
		return mkey{n: k.n}, true
	case KFloat:
		f := fl(k)
		if f == 0 {
			return mkey{}, true
		}
		return mkey{n: k.n}, true
	case KString:
		s, ok := strC(k)
		return mkey{s: s}, ok
	case KPtr, KUnsafe, KChan, KMap, KFunc:
		if sp, ok := k.r.(*SymPtr); ok {
			k = m.concPtr(sp)
		}
		return mkey{p: k.r, n: k.n}, true
	case KIface:
		i, _ := k.r.(*Iface)
		if i == nil {
			return mkey{}, true
		}
		if !types.Comparable(i.t.t) {
			m.throwRT("hash of unhashable type " + i.t.reflString())
		}
		sub, ok := m.mapKey(i.v, i.t)
		if !ok {
			return mkey{}, false
		}
		if sub.p != nil {
			// pointer: unique already, but keep type apart
			return mkey{p: sub.p, n: sub.n, s: sub.s + fmt.Sprintf("#%d", i.t.id)}, true
		}
		return mkey{p: i.t, n: sub.n, s: sub.s}, true
	case KStruct, KArray:
		var buf []byte
		ok := m.encKey(&buf, k, t)
		return mkey{s: string(buf)}, ok
	}
	unsupported("map key %s", t)
	return mkey{}, false
}

func (m *M) encKey(buf *[]byte, k V, t *TInfo) bool {
	switch t.kind {
	case KStruct:
		for i, ft := range t.fields {
			if !m.encKey(buf, aggField(k, t.offs[i], ft), ft) {
				return false
			}
		}
		return true
	case KArray:
		for i := 0; i < t.n; i++ {
			if !m.encKey(buf, aggField(k, i*t.elem.size, t.elem), t.elem) {
				return false
			}
		}
		return true
	}
	mk, ok := m.mapKey(k, t)
	if !ok {
		return false
	}
	pid := uint64(0)
	switch p := mk.p.(type) {
	case nil:
	case *Obj:
		pid = uint64(m.objID(p))<<2 | 1
	case *TInfo:
		pid = uint64(p.id)<<2 | 2
	case *Map:
		if p.id == 0 {
			m.nextID++
			p.id = m.nextID
		}
		pid = uint64(p.id)<<2 | 3
	default:
		unsupported("composite map key with %T", mk.p)
	}
	*buf = binary.LittleEndian.AppendUint64(*buf, pid)
	*buf = binary.LittleEndian.AppendUint64(*buf, mk.n)
	*buf = binary.LittleEndian.AppendUint64(*buf, uint64(len(mk.s)))
	*buf = append(*buf, mk.s...)
	return true
}

func (m *M) mapFind(mp *Map, k V, kt *TInfo) int {
	if mp == nil {
		if kt.kind == KIface {
			m.mapKey(k, kt)
		}
		return -1
	}
	mk, ok := m.mapKey(k, kt)
	if ok {
		if i, ok := mp.idx[mk]; ok {
			return i
		}
		if !mp.sym {
			return -1
		}
	}
	for i := range mp.keys {
		if !mp.live[i] {
			continue
		}
		if ok {
			if _, conc := m.mapKey(mp.keys[i], kt); conc {
				continue
			}
		}
		e := m.eq(k, mp.keys[i], kt)
		if m.condV(e) {
			return i
		}
	}
	return -1
}

func (m *M) mapGet(mp *Map, k V, kt *TInfo) (V, bool) {
	i := m.mapFind(mp, k, kt)
	if i < 0 {
		return V{}, false
	}
	return mp.vals[i], true
}

func (m *M) mapSet(mp *Map, k, v V, kt *TInfo) {
	i := m.mapFind(mp, k, kt)
	logit := mp.epoch < m.epoch
	if i >= 0 {
		if logit {
			old := mp.vals[i]
			m.onUndo(func() { mp.vals[i] = old })
		}
		mp.vals[i] = v
		return
	}
	mk, ok := m.mapKey(k, kt)
	n := len(mp.keys)
	if logit {
		oldsym := mp.sym
		m.onUndo(func() {
			mp.keys, mp.vals, mp.live = mp.keys[:n], mp.vals[:n], mp.live[:n]
			mp.n--
			mp.sym = oldsym
			if ok {
				delete(mp.idx, mk)
			}
		})
	}
	mp.keys = append(mp.keys, k)
	mp.vals = append(mp.vals, v)
	mp.live = append(mp.live, true)
	mp.n++
	if ok {
		mp.idx[mk] = n
	} else {
		mp.sym = true
	}
}

func (m *M) mapDelete(mp *Map, k V, kt *TInfo) {
	i := m.mapFind(mp, k, kt)
	if i < 0 {
		return
	}
	mk, ok := m.mapKey(mp.keys[i], kt)
	if mp.epoch < m.epoch {
		m.onUndo(func() {
			mp.live[i] = true
			mp.n++
			if ok {
				mp.idx[mk] = i
			}
		})
	}
	mp.live[i] = false
	mp.n--
	if ok {
		delete(mp.idx, mk)
	}
}

func (m *M) mapClear(mp *Map) {
	if mp == nil {
		return
	}
	old := *mp
	if mp.epoch < m.epoch {
		m.onUndo(func() { ep := mp.epoch; *mp = old; mp.epoch = ep })
	}
	mp.idx, mp.keys, mp.vals, mp.live, mp.n, mp.sym = map[mkey]int{}, nil, nil, nil, 0, false
}

// ---- channels (buffered FIFO only; single-threaded)

type Chan struct {
	cap    int
	buf    []V
	closed bool
	epoch  uint32
}

func (m *M) newChan(n int) *Chan { return &Chan{cap: n, epoch: m.epoch} }

func (m *M) chanSend(c, v V) {
	ch, _ := c.r.(*Chan)
	if ch == nil {
		panic(endPath{"deadlock", "send on nil channel"})
	}
	if ch.closed {
		m.throwRT("send on closed channel")
	}
	if len(ch.buf) >= ch.cap {
		unsupported("blocking channel send")
	}
	old := ch.buf
	m.onUndo(func() { ch.buf = old })
	ch.buf = append(append([]V(nil), ch.buf...), v)
}

func (m *M) chanRecv(c V, commaok bool) V {
	ch, _ := c.r.(*Chan)
	if ch == nil {
		panic(endPath{"deadlock", "receive from nil channel"})
	}
	if len(ch.buf) == 0 {
		if ch.closed {
			if commaok {
				return mkTuple(V{}, V{})
			}
			return V{}
		}
		unsupported("blocking channel receive")
	}
	old := ch.buf
	m.onUndo(func() { ch.buf = old })
	v := ch.buf[0]
	ch.buf = append([]V(nil), ch.buf[1:]...)
	if commaok {
		return mkTuple(v, mkBool(true))
	}
	return v
}

func (m *M) spawn(c *Closure, args []V) {
	name := c.name
	if c.fn != nil {
		name = c.fn.name
	}
	unsupported("goroutine %s", name)
}

// ---- builtins

func (c *comp) builtin(b *ssa.Builtin, cc *ssa.CallCommon) func(m *M, a []V) V {
	T := c.P.T
	var at []*TInfo
	for _, x := range cc.Args {
		at = append(at, T.Of(x.Type()))
	}
	switch b.Name() {
	case "len":
		t := at[0]
		if t.kind == KPtr {
			n := t.elem.n
			return func(m *M, a []V) V { return mkInt(n) }
		}
		if t.kind == KArray {
			return func(m *M, a []V) V { return mkInt(t.n) }
		}
		return func(m *M, a []V) V {
			switch r := a[0].r.(type) {
			case nil:
				return V{}
			case *Str:
				if r.sym != nil {
					return mkInt(len(r.sym))
				}
				return mkInt(len(r.s))
			case *Slice:
				return mkInt(r.len)
			case *Map:
				return mkInt(r.n)
			case *Chan:
				return mkInt(len(r.buf))
			}
			unsupported("len of %T", a[0].r)
			return V{}
		}
	case "cap":
		t := at[0]
		if t.kind == KPtr {
			n := t.elem.n
			return func(m *M, a []V) V { return mkInt(n) }
		}
		if t.kind == KArray {
			return func(m *M, a []V) V { return mkInt(t.n) }
		}
		return func(m *M, a []V) V {
			switch r := a[0].r.(type) {
			case nil:
				return V{}
			case *Slice:
				return mkInt(r.cap)
			case *Chan:
				return mkInt(r.cap)
			}
			unsupported("cap of %T", a[0].r)
			return V{}
		}
	case "append":
		et := at[0].elem
		return func(m *M, a []V) V { return m.append(a[0], a[1], et) }
	case "copy":
		et := at[0].elem
		return func(m *M, a []V) V {
			d, _ := a[0].r.(*Slice)
			if d == nil {
				return V{}
			}
			var src []V
			n := 0
			switch s := a[1].r.(type) {
			case nil:
				return V{}
			case *Str:
				src = strBytes(a[1])
				n = len(src)
			case *Slice:
				src = s.o.s[s.off : s.off+s.len*et.size]
				n = s.len
			}
			if d.len < n {
				n = d.len
			}
			m.copyTo(d.o, d.off, src[:n*et.size])
			return mkInt(n)
		}
	case "delete":
		kt := at[0].key
		return func(m *M, a []V) V {
			if mp, _ := a[0].r.(*Map); mp != nil {
				m.mapDelete(mp, a[1], kt)
			}
			return V{}
		}
	case "clear":
		return func(m *M, a []V) V {
			switch r := a[0].r.(type) {
			case *Map:
				m.mapClear(r)
			case *Slice:
				n := r.len * at[0].elem.size
				m.copyTo(r.o, r.off, make([]V, n))
			}
			return V{}
		}
	case "panic":
		return func(m *M, a []V) V { panic(goPanic{a[0]}) }
	case "recover":
		return func(m *M, a []V) V {
			f := &m.frames[len(m.frames)-1]
			if f.kind != fkPanicDefer || len(m.frames) < 2 {
				return V{}
			}
			p := &m.frames[len(m.frames)-2]
			if p.pan == nil || p.recovered {
				return V{}
			}
			p.recovered = true
			return p.pan.v
		}
	case "print", "println":
		return func(m *M, a []V) V { return V{} }
	case "min", "max":
		t := at[0]
		max := b.Name() == "max"
		return func(m *M, a []V) V {
			r := a[0]
			for _, x := range a[1:] {
				var lt V
				switch t.kind {
				case KInt:
					lt = m.intBin(token.LSS, x, r, t)
				case KFloat:
					lt = m.floatBin(token.LSS, x, r, t)
				case KString:
					lt = m.strLess(x, r, false)
				}
				if max {
					switch t.kind {
					case KInt:
						lt = m.intBin(token.GTR, x, r, t)
					case KFloat:
						lt = m.floatBin(token.GTR, x, r, t)
					case KString:
						lt = m.strLess(r, x, false)
					}
				}
				if lt.r != nil && t.kind == KInt {
					r = m.fromTerm(m.tt.Ite(lt.r.(*Term), m.asTerm(x, t), m.asTerm(r, t)), t)
				} else if m.condV(lt) {
					r = x
				}
			}
			return r
		}
	case "close":
		return func(m *M, a []V) V {
			ch, _ := a[0].r.(*Chan)
			if ch == nil {
				m.throwRT("close of nil channel")
			}
			if ch.closed {
				m.throwRT("close of closed channel")
			}
			m.onUndo(func() { ch.closed = false })
			ch.closed = true
			return V{}
		}
	case "ssa:wrapnilchk":
		return func(m *M, a []V) V {
			if a[0].r == nil {
				m.nilDeref()
			}
			return a[0]
		}
	case "String": // unsafe.String
		return func(m *M, a []V) V {
			n := m.conc(a[1], c.P.intT)
			if n == 0 {
				return V{}
			}
			o := a[0].r.(*Obj)
			return bytesToStr(o.s[a[0].n : a[0].n+uint64(n)])
		}
	case "StringData":
		return func(m *M, a []V) V {
			o := m.alloc(strLen(a[0]))
			copy(o.s, strBytes(a[0]))
			return V{r: o}
		}
	case "SliceData":
		return func(m *M, a []V) V {
			s, _ := a[0].r.(*Slice)
			if s == nil {
				return V{}
			}
			return V{r: s.o, n: uint64(s.off)}
		}
	case "Slice": // unsafe.Slice
		return func(m *M, a []V) V {
			n := m.conc(a[1], c.P.intT)
			if a[0].r == nil {
				return V{}
			}
			return V{r: &Slice{a[0].r.(*Obj), int(a[0].n), n, n}}
		}
	case "real", "imag", "complex", "Add", "Alignof", "Offsetof", "Sizeof":
	}
	nm := b.Name()
	return func(m *M, a []V) V { unsupported("builtin %s", nm); return V{} }
}

func (m *M) copyTo(o *Obj, off int, src []V) {
	if len(src) == 0 {
		return
	}
	if o.epoch < m.epoch {
		if len(o.s) <= 64 {
			m.touch(o, off)
		} else {
			for i := range src {
				m.touch(o, off+i)
			}
		}
	}
	copy(o.s[off:], src)
}

func (m *M) append(a, b V, et *TInfo) V {
	var src []V
	n := 0
	switch s := b.r.(type) {
	case nil:
		return a
	case *Str:
		src = strBytes(b)
		n = len(src)
	case *Slice:
		n = s.len
		src = s.o.s[s.off : s.off+s.len*et.size]
	}
	if n == 0 {
		return a
	}
	d, _ := a.r.(*Slice)
	dl, dc := 0, 0
	if d != nil {
		dl, dc = d.len, d.cap
	}
	if dl+n <= dc {
		m.copyTo(d.o, d.off+dl*et.size, src)
		return V{r: &Slice{d.o, d.off, dl + n, dc}}
	}
	nc := growCap(dc, dl+n, et)
	o := m.alloc(nc * et.size)
	if d != nil {
		copy(o.s, d.o.s[d.off:d.off+dl*et.size])
	}
	copy(o.s[dl*et.size:], src)
	return V{r: &Slice{o, 0, dl + n, nc}}
}

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(size int, noscan bool) int {
	req := size
	if !noscan && req > 512 {
		req += 8
	}
	if req <= 32768 {
		for _, c := range sizeClasses {
			if c >= req {
				return c - (req - size)
			}
		}
	}
	const page = 8192
	return (size + page - 1) / page * page
}

// growCap mirrors runtime.growslice for element type et (amd64).
func growCap(old, need int, et *TInfo) int {
	nc := old
	dbl := old * 2
	switch {
	case need > dbl:
		nc = need
	case old < 256:
		nc = dbl
	default:
		for nc < need {
			nc += (nc + 3*256) >> 2
		}
	}
	es := et.bytes
	if es == 0 {
		return need
	}
	return roundupsize(nc*es, et.noscan) / es
}
