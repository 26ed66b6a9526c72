package main

import (
	"math/big"
	"strconv"
)

// Symbolic integers inside math/big and apd: a natural number is kept as the
// library keeps it (a slice of words) with one word being a symbolic term of
// bounded range; zero (an empty slice) is split off by forking. Only the
// word-level primitives and a few hot entry points are summarised here; each
// summary applies only when an operand is symbolic, and otherwise the library's
// own code is interpreted.

// regc registers a conditional native: f reports whether it handled the call;
// when it did not, the function's own body is interpreted.
func regc(name string, f func(m *M, a []V) (V, bool)) {
	condNatives[name] = f
}

var condNatives = map[string]func(m *M, a []V) (V, bool){}

const (
	apdp = "github.com/cockroachdb/apd/v2."
	// symLimit bounds the magnitudes the word-level encoding supports.
	symLimit = uint64(1) << 62
)

type bigRef struct {
	o   *Obj
	off int
}

func bigAt(p V, off int) bigRef { return bigRef{p.r.(*Obj), int(p.n) + off} }

func (b bigRef) neg() bool { return b.o.s[b.off].n != 0 }

func (b bigRef) words() []V {
	_, w := sliceV(b.o.s[b.off+1])
	return w
}

// sym returns the single symbolic word of b, if it has one.
func (b bigRef) sym() *Term {
	w := b.words()
	if len(w) != 1 {
		return nil
	}
	t, _ := w[0].r.(*Term)
	return t
}

func (b bigRef) big() *big.Int {
	ws := b.words()
	x := new(big.Int)
	for i := len(ws) - 1; i >= 0; i-- {
		if ws[i].r != nil {
			return nil
		}
		x.Lsh(x, 64)
		x.Or(x, new(big.Int).SetUint64(ws[i].n))
	}
	if b.neg() {
		x.Neg(x)
	}
	return x
}

func (m *M) setBig(b bigRef, neg bool, t *Term) {
	// caller has already forked on zero
	m.set(b.o, b.off, mkBool(neg))
	if t == nil {
		m.set(b.o, b.off+1, V{})
		return
	}
	o := m.alloc(1)
	o.s[0] = m.fromTerm(t, m.P.uint64T())
	m.set(b.o, b.off+1, V{r: &Slice{o, 0, 1, 1}})
}

func (P *Prog) uint64T() *TInfo { return &TInfo{kind: KInt, w: 64, size: 1} }

// signedTerm is the value of a symbolic big with sign.
func (m *M) signedTerm(neg bool, t *Term) *Term {
	if neg {
		return m.tt.Un(ONeg, t)
	}
	return t
}

func (m *M) cmpSym(x *Term, y *Term) V {
	tt := m.tt
	one := tt.Const(1, 64)
	mone := tt.Const(^uint64(0), 64)
	t := tt.Ite(tt.Bin(OSlt, x, y), mone, tt.Ite(tt.Bin(OEq, x, y), tt.Const(0, 64), one))
	return m.fromTerm(t, m.P.intT)
}

// cmpBig compares symbolic x with concrete rational y (as floor + exactness).
func (m *M) cmpBig(neg bool, t *Term, y *big.Rat) V {
	lim := new(big.Rat).SetInt64(1 << 62)
	if y.Cmp(lim) >= 0 {
		return mkInt(-1)
	}
	if y.Cmp(new(big.Rat).Neg(lim)) <= 0 {
		return mkInt(1)
	}
	x := m.signedTerm(neg, t)
	if y.IsInt() {
		return m.cmpSym(x, m.tt.Const(uint64(y.Num().Int64()), 64))
	}
	fl := new(big.Int).Div(y.Num(), y.Denom()) // Euclidean; denom > 0, so floor
	c := m.tt.Const(uint64(fl.Int64()), 64)
	tt := m.tt
	return m.fromTerm(tt.Ite(tt.Bin(OSle, x, c), tt.Const(^uint64(0), 64), tt.Const(1, 64)), m.P.intT)
}

func neg01(v V) V {
	if t, ok := v.r.(*Term); ok {
		_ = t
		return v
	}
	return V{n: -v.n}
}

// decimal field offsets
const (
	dForm, dNeg, dExp, dCoeff = 0, 1, 2, 3
)

type decRef struct {
	o   *Obj
	off int
}

func decAt(p V) (decRef, bool) {
	o, ok := p.r.(*Obj)
	return decRef{o, int(p.n)}, ok
}
func (d decRef) coeff() bigRef { return bigRef{d.o, d.off + dCoeff} }
func (d decRef) conc() bool {
	return d.o.s[d.off].r == nil && d.o.s[d.off+1].r == nil && d.o.s[d.off+2].r == nil
}
func (d decRef) form() int { return int(d.o.s[d.off].n) }
func (d decRef) neg() bool { return d.o.s[d.off+1].n != 0 }
func (d decRef) exp() int  { return int(int32(d.o.s[d.off+2].n)) }

// symInt returns the symbolic coefficient if d is a finite integer of exponent 0.
func (d decRef) symInt() *Term {
	if !d.conc() || d.form() != 0 || d.exp() != 0 {
		return nil
	}
	t := d.coeff().sym()
	if t == nil || t.hi >= symLimit {
		return nil
	}
	return t
}

func (d decRef) rat() *big.Rat {
	if !d.conc() || d.form() != 0 {
		return nil
	}
	b := d.coeff().big()
	e := d.exp()
	if b == nil || e > 400 || e < -400 {
		return nil
	}
	r := new(big.Rat).SetInt(b)
	p := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(abs(e))), nil)
	if e >= 0 {
		r.Mul(r, new(big.Rat).SetInt(p))
	} else {
		r.Quo(r, new(big.Rat).SetInt(p))
	}
	if d.neg() {
		r.Neg(r)
	}
	return r
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

func flipCmp(m *M, v V) V {
	if t, ok := v.r.(*Term); ok {
		return m.fromTerm(m.tt.Un(ONeg, t), m.P.intT)
	}
	return V{n: -v.n}
}

// numTerm parses a decimal numeral: a literal standing for a symbolic value, or
// a string with symbolic digits.
func (m *M) numTerm(s V) *Term {
	if x, ok := strC(s); ok {
		if len(x) != 13 {
			return nil
		}
		n, err := strconv.ParseUint(x, 10, 64)
		if err != nil {
			return nil
		}
		return m.litTerm(n)
	}
	bs := strBytes(s)
	if len(bs) > 18 {
		return nil
	}
	tt := m.tt
	acc := tt.Const(0, 64)
	for _, b := range bs {
		var t *Term
		if x, ok := b.r.(*Term); ok {
			t = x
		} else {
			t = tt.Const(b.n, 8)
		}
		if t.lo < '0' || t.hi > '9' {
			return nil
		}
		d := tt.Bin(OSub, t, tt.Const('0', 8))
		acc = tt.Bin(OAdd, tt.Bin(OMul, acc, tt.Const(10, 64)), tt.Resize(d, 64, false))
	}
	return acc
}

// nonZero forks on t being zero and returns nil for zero.
func (m *M) nonZero(t *Term) *Term {
	if t.lo > 0 {
		return t
	}
	if m.branch(m.tt.Bin(OEq, t, m.tt.Const(0, t.w))) {
		return nil
	}
	return t
}

func init() {
	regc("(*math/big.Int).SetString", func(m *M, a []V) (V, bool) {
		if a[2].r != nil || a[2].n != 10 {
			return V{}, false
		}
		t := m.numTerm(a[1])
		if t == nil || isC(t) {
			return V{}, false
		}
		t = m.nonZero(t)
		m.setBig(bigAt(a[0], 0), false, t)
		return mkTuple(a[0], mkBool(true)), true
	})
	for _, fn := range []string{"Append", "Text", "String"} {
		fn := fn
		regc("(*math/big.Int)."+fn, func(m *M, a []V) (V, bool) {
			if _, ok := a[0].r.(*Obj); !ok {
				return V{}, false
			}
			b := bigAt(a[0], 0)
			t := b.sym()
			if t == nil {
				return V{}, false
			}
			base := V{n: 10}
			if fn == "Append" {
				base = a[2]
			} else if fn == "Text" {
				base = a[1]
			}
			s := m.fmtInt(V{r: t}, false, base)
			if b.neg() {
				s = m.strConcat(mkStr("-"), s)
			}
			if fn == "Append" {
				return m.append(a[1], s, byteTI(m)), true
			}
			return s, true
		})
	}
	regc("(*math/big.Int).Cmp", func(m *M, a []V) (V, bool) {
		x, y := bigAt(a[0], 0), bigAt(a[1], 0)
		tx, ty := x.sym(), y.sym()
		if tx != nil && tx.hi >= symLimit || ty != nil && ty.hi >= symLimit {
			return V{}, false
		}
		switch {
		case tx != nil && ty != nil:
			return m.cmpSym(m.signedTerm(x.neg(), tx), m.signedTerm(y.neg(), ty)), true
		case tx != nil:
			return m.cmpBig(x.neg(), tx, new(big.Rat).SetInt(y.big())), true
		case ty != nil:
			return flipCmp(m, m.cmpBig(y.neg(), ty, new(big.Rat).SetInt(x.big()))), true
		}
		return V{}, false
	})
	regc("(*math/big.Int).QuoRem", func(m *M, a []V) (V, bool) {
		// z.QuoRem(x, y, r)
		x, y := bigAt(a[1], 0), bigAt(a[2], 0)
		tx := x.sym()
		yb := y.big()
		if tx == nil || yb == nil || yb.Sign() <= 0 || !yb.IsUint64() {
			return V{}, false
		}
		tt := m.tt
		c := tt.Const(yb.Uint64(), 64)
		neg := x.neg()
		q := tt.Bin(OUDiv, tx, c)
		r := tt.Bin(OURem, tx, c)
		nz := func(t *Term) *Term {
			if isC(t) {
				if t.k == 0 {
					return nil
				}
				return t
			}
			return m.nonZero(t)
		}
		q, r = nz(q), nz(r)
		m.setBig(bigAt(a[0], 0), neg && q != nil, q)
		m.setBig(bigAt(a[3], 0), neg && r != nil, r)
		return mkTuple(a[0], a[3]), true
	})
	regc(apdp+"NumDigits", func(m *M, a []V) (V, bool) {
		t := bigAt(a[0], 0).sym()
		if t == nil {
			return V{}, false
		}
		tt := m.tt
		r := tt.Const(20, 64)
		n := uint64(19)
		for p := uint64(1e19); p >= 10; p /= 10 {
			if t.lo >= p {
				break
			}
			if t.hi < p {
				r = tt.Const(n, 64)
			} else {
				r = tt.Ite(tt.Bin(OUlt, t, tt.Const(p, 64)), tt.Const(n, 64), r)
			}
			n--
		}
		return m.fromTerm(r, m.P.intT), true
	})
	regc("(*"+apdp+"Decimal).Cmp", func(m *M, a []V) (V, bool) {
		x, ok1 := decAt(a[0])
		y, ok2 := decAt(a[1])
		if !ok1 || !ok2 {
			return V{}, false
		}
		tx, ty := x.symInt(), y.symInt()
		switch {
		case tx != nil && ty != nil:
			return m.cmpSym(m.signedTerm(x.neg(), tx), m.signedTerm(y.neg(), ty)), true
		case tx != nil:
			if r := y.rat(); r != nil {
				return m.cmpBig(x.neg(), tx, r), true
			}
		case ty != nil:
			if r := x.rat(); r != nil {
				return flipCmp(m, m.cmpBig(y.neg(), ty, r)), true
			}
		}
		return V{}, false
	})
	regc("(*"+apdp+"Decimal).Int64", func(m *M, a []V) (V, bool) {
		x, ok := decAt(a[0])
		if !ok {
			return V{}, false
		}
		t := x.symInt()
		if t == nil {
			return V{}, false
		}
		return mkTuple(m.fromTerm(m.signedTerm(x.neg(), t), m.P.intT), V{}), true
	})
	// an integer of few digits is left as is by rounding
	regc("("+apdp+"Rounder).Round", func(m *M, a []V) (V, bool) {
		// Round(c, d, x) Condition
		x, ok := decAt(a[3])
		if !ok {
			return V{}, false
		}
		t := x.symInt()
		if t == nil {
			return V{}, false
		}
		d, _ := decAt(a[2])
		prec := a[1].r.(*Obj).s[a[1].n].n
		if prec != 0 && prec < 19 {
			return V{}, false
		}
		if d != x {
			for i := 0; i < 3; i++ {
				m.set(d.o, d.off+i, x.o.s[x.off+i])
			}
			m.setBig(d.coeff(), false, t)
		}
		return V{}, true
	})
}
