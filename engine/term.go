package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Op is a term operator.
type Op uint8

const (
	OConst Op = iota // bv or bool constant
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	ONot // bvnot
	ONeg
	OZext
	OSext
	OExtract // low w bits of a
	OIte
	// booleans (w==0)
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
)

// Term is a hash-consed SMT term. w is the bit width; 0 means Bool.
type Term struct {
	op      Op
	w       uint8
	a, b, c *Term
	k       uint64
	id      uint32
	// unsigned interval over-approximation (bv only)
	lo, hi uint64
	name   string
	size   int32
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c uint32
	k       uint64
}

// TermTab is a per-machine table of terms.
type TermTab struct {
	tab  map[termKey]*Term
	n    uint32
	vars []*Term
	T, F *Term
}

func newTermTab() *TermTab {
	t := &TermTab{tab: map[termKey]*Term{}}
	t.F = t.mk(OConst, 0, nil, nil, nil, 0)
	t.T = t.mk(OConst, 0, nil, nil, nil, 1)
	return t
}

func tid(t *Term) uint32 {
	if t == nil {
		return 0
	}
	return t.id
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (tt *TermTab) mk(op Op, w uint8, a, b, c *Term, k uint64) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(c), k}
	if t, ok := tt.tab[key]; ok {
		return t
	}
	tt.n++
	t := &Term{op: op, w: w, a: a, b: b, c: c, k: k, id: tt.n}
	t.size = 1
	for _, x := range []*Term{a, b, c} {
		if x != nil {
			t.size += x.size
			if t.size > 1<<28 {
				t.size = 1 << 28
			}
		}
	}
	if w > 0 {
		tt.interval(t)
	}
	tt.tab[key] = t
	return t
}

func (tt *TermTab) interval(t *Term) {
	m := mask(t.w)
	t.lo, t.hi = 0, m
	switch t.op {
	case OConst:
		t.lo, t.hi = t.k, t.k
	case OAdd:
		h, carry := bits.Add64(t.a.hi, t.b.hi, 0)
		if carry == 0 && h <= m {
			t.lo, t.hi = t.a.lo+t.b.lo, h
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
		}
	case OMul:
		hi, lo := bits.Mul64(t.a.hi, t.b.hi)
		if hi == 0 && lo <= m {
			t.lo, t.hi = t.a.lo*t.b.lo, lo
		}
	case OUDiv:
		if t.b.lo > 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
		}
	case OURem:
		if t.b.lo > 0 {
			t.hi = t.b.hi - 1
			if t.a.hi < t.hi {
				t.hi = t.a.hi
			}
			if t.a.hi < t.b.lo {
				t.lo = t.a.lo
			}
		}
	case OAnd:
		t.hi = t.a.hi
		if t.b.hi < t.hi {
			t.hi = t.b.hi
		}
	case OOr, OXor:
		n := bits.Len64(t.a.hi | t.b.hi)
		if n < 64 {
			t.hi = (uint64(1) << n) - 1
		}
		if t.hi > m {
			t.hi = m
		}
	case OLshr:
		if t.b.op == OConst && t.b.k < 64 {
			t.lo, t.hi = t.a.lo>>t.b.k, t.a.hi>>t.b.k
		} else {
			t.hi = t.a.hi
		}
	case OShl:
		if t.b.op == OConst && t.b.k < 64 && t.a.hi <= m>>t.b.k {
			t.lo, t.hi = t.a.lo<<t.b.k, t.a.hi<<t.b.k
		}
	case OZext:
		t.lo, t.hi = t.a.lo, t.a.hi
	case OSext:
		if t.a.hi < uint64(1)<<(t.a.w-1) {
			t.lo, t.hi = t.a.lo, t.a.hi
		}
	case OExtract:
		if t.a.hi <= m {
			t.lo, t.hi = t.a.lo, t.a.hi
		}
	case OIte:
		t.lo, t.hi = t.b.lo, t.b.hi
		if t.c.lo < t.lo {
			t.lo = t.c.lo
		}
		if t.c.hi > t.hi {
			t.hi = t.c.hi
		}
	}
}

func (tt *TermTab) Const(v uint64, w uint8) *Term {
	return tt.mk(OConst, w, nil, nil, nil, v&mask(w))
}
func (tt *TermTab) Bool(b bool) *Term {
	if b {
		return tt.T
	}
	return tt.F
}

// Var makes a fresh variable. If name is known it is reused.
func (tt *TermTab) Var(name string, w uint8, lo, hi uint64) *Term {
	for _, v := range tt.vars {
		if v.name == name && v.w == w && (w == 0 || v.lo == lo && v.hi == hi) {
			return v
		}
	}
	t := tt.mk(OVar, w, nil, nil, nil, uint64(len(tt.vars)))
	t.name = name
	if w > 0 {
		t.lo, t.hi = lo, hi
	}
	tt.vars = append(tt.vars, t)
	return t
}

func isC(t *Term) bool { return t.op == OConst }

func evalBin(op Op, x, y uint64, w uint8) uint64 {
	m := mask(w)
	b := func(c bool) uint64 {
		if c {
			return 1
		}
		return 0
	}
	switch op {
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case OURem:
		if y == 0 {
			return x
		}
		return x % y
	case OSDiv:
		sxx, sy := sx(x, w), sx(y, w)
		if sy == 0 {
			if sxx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sxx) & m
		}
		return uint64(sxx/sy) & m
	case OSRem:
		sxx, sy := sx(x, w), sx(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sxx%sy) & m
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OXor:
		return x ^ y
	case OShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case OAshr:
		s := sx(x, w)
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(s>>y) & m
	case OEq:
		return b(x == y)
	case OUlt:
		return b(x < y)
	case OUle:
		return b(x <= y)
	case OSlt:
		return b(sx(x, w) < sx(y, w))
	case OSle:
		return b(sx(x, w) <= sx(y, w))
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	}
	panic("evalBin")
}

// nonneg reports that the signed interpretation is known non-negative.
func nonneg(t *Term) bool { return t.hi < uint64(1)<<(t.w-1) }

func (tt *TermTab) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if isC(a) && isC(b) {
		v := evalBin(op, a.k, b.k, w)
		if op >= OEq {
			return tt.Bool(v == 1)
		}
		return tt.Const(v, w)
	}
	switch op {
	case OAdd:
		if isC(a) {
			a, b = b, a
		}
		// (x/c)*c + x%c = x
		for _, p := range [2][2]*Term{{a, b}, {b, a}} {
			q, r := p[0], p[1]
			if q.op == OMul && r.op == OURem && isC(q.b) && q.b == r.b && q.b.k != 0 {
				if d := q.a; d.op == OUDiv && d.b == q.b && d.a == r.a {
					return r.a
				}
			}
		}
		if isC(b) {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && isC(a.b) {
				return tt.Bin(OAdd, a.a, tt.Const(a.b.k+b.k, w))
			}
			if a.op == OSub && isC(a.b) {
				return tt.Bin(OAdd, a.a, tt.Const(b.k-a.b.k, w))
			}
		}
	case OSub:
		if a == b {
			return tt.Const(0, w)
		}
		if isC(b) {
			if b.k == 0 {
				return a
			}
			if a.op == OAdd && isC(a.b) {
				return tt.Bin(OAdd, a.a, tt.Const(a.b.k-b.k, w))
			}
			if a.op == OSub && isC(a.b) {
				return tt.Bin(OSub, a.a, tt.Const(a.b.k+b.k, w))
			}
		}
		if a.op == OAdd && a.b == b {
			return a.a
		}
		if a.op == OAdd && a.a == b {
			return a.b
		}
	case OMul:
		if isC(a) {
			a, b = b, a
		}
		if isC(b) {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		}
	case OUDiv:
		if isC(b) && b.k == 1 {
			return a
		}
		if b.lo > 0 && a.hi < b.lo {
			return tt.Const(0, w)
		}
	case OURem:
		if b.lo > 0 && a.hi < b.lo {
			return a
		}
	case OSDiv:
		if nonneg(a) && nonneg(b) {
			return tt.Bin(OUDiv, a, b)
		}
	case OSRem:
		if nonneg(a) && nonneg(b) {
			return tt.Bin(OURem, a, b)
		}
	case OAnd:
		if isC(a) {
			a, b = b, a
		}
		if isC(b) {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			// mask wide enough
			if b.k&(b.k+1) == 0 && a.hi <= b.k {
				return a
			}
		}
		if a == b {
			return a
		}
	case OOr:
		if isC(a) {
			a, b = b, a
		}
		if isC(b) && b.k == 0 {
			return a
		}
		if a == b {
			return a
		}
	case OXor:
		if isC(a) {
			a, b = b, a
		}
		if isC(b) && b.k == 0 {
			return a
		}
		if a == b {
			return tt.Const(0, w)
		}
	case OShl, OLshr, OAshr:
		if isC(b) && b.k == 0 {
			return a
		}
		if op == OLshr && isC(b) && b.k < 64 && a.hi>>b.k == 0 {
			return tt.Const(0, w)
		}
		if op == OAshr && nonneg(a) {
			return tt.Bin(OLshr, a, b)
		}
	case OEq:
		if a == b {
			return tt.T
		}
		if w == 0 {
			if isC(a) {
				a, b = b, a
			}
			if isC(b) {
				if b.k == 1 {
					return a
				}
				return tt.Not(a)
			}
			break
		}
		if a.hi < b.lo || b.hi < a.lo {
			return tt.F
		}
		if isC(a) {
			a, b = b, a
		}
		if isC(b) {
			switch {
			case a.op == OZext:
				if b.k > mask(a.a.w) {
					return tt.F
				}
				return tt.Bin(OEq, a.a, tt.Const(b.k, a.a.w))
			case a.op == OAdd && isC(a.b):
				return tt.Bin(OEq, a.a, tt.Const(b.k-a.b.k, w))
			case a.op == OSub && isC(a.b):
				return tt.Bin(OEq, a.a, tt.Const(b.k+a.b.k, w))
			case a.op == OIte && isC(a.b) && isC(a.c):
				t, f := a.b.k == b.k, a.c.k == b.k
				if t && f {
					return tt.T
				}
				if t {
					return a.a
				}
				if f {
					return tt.Not(a.a)
				}
				return tt.F
			}
		} else {
			if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
				return tt.Bin(OEq, a.a, b.a)
			}
			if a.op == OAdd && b.op == OAdd && a.b == b.b {
				return tt.Bin(OEq, a.a, b.a)
			}
			if a.id > b.id {
				a, b = b, a
			}
		}
	case OUlt:
		if a == b {
			return tt.F
		}
		if a.hi < b.lo {
			return tt.T
		}
		if a.lo >= b.hi {
			return tt.F
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tt.Bin(OUlt, a.a, b.a)
		}
		return tt.Not(tt.Bin(OUle, b, a))
	case OUle:
		if a == b {
			return tt.T
		}
		if a.hi <= b.lo {
			return tt.T
		}
		if a.lo > b.hi {
			return tt.F
		}
		if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return tt.Bin(OUle, a.a, b.a)
		}
	case OSlt:
		if a == b {
			return tt.F
		}
		if nonneg(a) && nonneg(b) {
			return tt.Bin(OUlt, a, b)
		}
		return tt.Not(tt.Bin(OSle, b, a))
	case OSle:
		if a == b {
			return tt.T
		}
		if nonneg(a) && nonneg(b) {
			return tt.Bin(OUle, a, b)
		}
	case OBAnd:
		if isC(a) {
			a, b = b, a
		}
		if isC(b) {
			if b.k == 0 {
				return b
			}
			return a
		}
		if a == b {
			return a
		}
		if tt.Not(a) == b {
			return tt.F
		}
	case OBOr:
		if isC(a) {
			a, b = b, a
		}
		if isC(b) {
			if b.k == 1 {
				return b
			}
			return a
		}
		if a == b {
			return a
		}
		if tt.Not(a) == b {
			return tt.T
		}
	}
	rw := w
	if op >= OEq {
		rw = 0
	}
	return tt.mk(op, rw, a, b, nil, 0)
}

func (tt *TermTab) Not(a *Term) *Term {
	if isC(a) {
		return tt.Bool(a.k == 0)
	}
	if a.op == OBNot {
		return a.a
	}
	return tt.mk(OBNot, 0, a, nil, nil, 0)
}
func (tt *TermTab) And(a, b *Term) *Term { return tt.Bin(OBAnd, a, b) }
func (tt *TermTab) Or(a, b *Term) *Term  { return tt.Bin(OBOr, a, b) }

func (tt *TermTab) Ite(c, a, b *Term) *Term {
	if isC(c) {
		if c.k == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if isC(a) && isC(b) {
			if a.k == 1 {
				return c
			}
			return tt.Not(c)
		}
		if isC(a) {
			if a.k == 1 {
				return tt.Or(c, b)
			}
			return tt.And(tt.Not(c), b)
		}
		if isC(b) {
			if b.k == 1 {
				return tt.Or(tt.Not(c), a)
			}
			return tt.And(c, a)
		}
	}
	return tt.mk(OIte, a.w, c, a, b, 0)
}

func (tt *TermTab) Un(op Op, a *Term) *Term {
	if isC(a) {
		if op == ONot {
			return tt.Const(^a.k, a.w)
		}
		return tt.Const(-a.k, a.w)
	}
	if a.op == op {
		return a.a
	}
	return tt.mk(op, a.w, a, nil, nil, 0)
}

// Resize converts a to width w, sign- or zero-extending per signed (of source).
func (tt *TermTab) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if isC(a) {
		if signed {
			return tt.Const(uint64(sx(a.k, a.w)), w)
		}
		return tt.Const(a.k, w)
	}
	if w > a.w {
		if a.op == OZext {
			return tt.Resize(a.a, w, false)
		}
		if a.op == OExtract && a.a.hi <= mask(a.w) && (!signed || nonneg(a)) {
			return tt.Resize(a.a, w, false)
		}
		if signed && !nonneg(a) {
			return tt.mk(OSext, w, a, nil, nil, 0)
		}
		return tt.mk(OZext, w, a, nil, nil, 0)
	}
	if a.op == OZext || a.op == OSext {
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return tt.Resize(a.a, w, false)
		}
		return tt.Resize(a.a, w, a.op == OSext)
	}
	return tt.mk(OExtract, w, a, nil, nil, 0)
}

// ---- evaluation under a model

type Model map[*Term]uint64

func (md Model) eval(t *Term, memo map[*Term]uint64) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OVar:
		if v, ok := md[t]; ok {
			return v
		}
		return t.lo
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case ONot:
		r = ^md.eval(t.a, memo) & mask(t.w)
	case ONeg:
		r = -md.eval(t.a, memo) & mask(t.w)
	case OZext:
		r = md.eval(t.a, memo)
	case OSext:
		r = uint64(sx(md.eval(t.a, memo), t.a.w)) & mask(t.w)
	case OExtract:
		r = md.eval(t.a, memo) & mask(t.w)
	case OIte:
		if md.eval(t.a, memo) == 1 {
			r = md.eval(t.b, memo)
		} else {
			r = md.eval(t.c, memo)
		}
	case OBNot:
		r = 1 ^ md.eval(t.a, memo)
	default:
		r = evalBin(t.op, md.eval(t.a, memo), md.eval(t.b, memo), t.a.w)
	}
	memo[t] = r
	return r
}

func (md Model) Eval(t *Term) uint64 { return md.eval(t, map[*Term]uint64{}) }

// ---- SMT-LIB printing

var opName = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr",
	OAshr: "bvashr", ONot: "bvnot", ONeg: "bvneg", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt",
	OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not", OIte: "ite"}

func sortOf(t *Term) string {
	if t.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", t.w)
}

func leaf(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.k, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OVar:
		return "v" + strconv.Itoa(int(t.k))
	}
	return "t" + strconv.Itoa(int(t.id))
}

// narrowTo returns a smaller width in which t can be computed exactly, or 0.
func narrowTo(t *Term) int {
	var k int
	switch t.op {
	case OUDiv, OURem:
		if t.b.lo == 0 {
			return 0
		}
		k = bits.Len64(t.a.hi)
		if n := bits.Len64(t.b.hi); n > k {
			k = n
		}
	case OMul:
		hi, lo := bits.Mul64(t.a.hi, t.b.hi)
		if hi != 0 {
			return 0
		}
		k = bits.Len64(lo)
		for _, x := range []uint64{t.a.hi, t.b.hi} {
			if n := bits.Len64(x); n > k {
				k = n
			}
		}
	default:
		return 0
	}
	if k == 0 {
		k = 1
	}
	if k+4 >= int(t.w) {
		return 0
	}
	return k
}

func body(t *Term) string {
	var sb strings.Builder
	switch t.op {
	case OZext:
		fmt.Fprintf(&sb, "((_ zero_extend %d) %s)", t.w-t.a.w, leaf(t.a))
	case OSext:
		fmt.Fprintf(&sb, "((_ sign_extend %d) %s)", t.w-t.a.w, leaf(t.a))
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d 0) %s)", t.w-1, leaf(t.a))
	default:
		if k := narrowTo(t); k > 0 {
			// the operands' ranges (asserted with the variables) allow fewer bits
			fmt.Fprintf(&sb, "((_ zero_extend %d) (%s ((_ extract %d 0) %s) ((_ extract %d 0) %s)))", int(t.w)-k, opName[t.op], k-1, leaf(t.a), k-1, leaf(t.b))
			break
		}
		sb.WriteString("(" + opName[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" " + leaf(x))
			}
		}
		sb.WriteString(")")
	}
	return sb.String()
}

// String renders a term for humans.
func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			return leaf(t)
		}
		return strconv.FormatUint(t.k, 10)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	n := opName[t.op]
	switch t.op {
	case OZext:
		n = "zext"
	case OSext:
		n = "sext"
	case OExtract:
		n = "trunc"
	}
	s := "(" + n
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + x.str(d-1)
		}
	}
	return s + ")"
}
