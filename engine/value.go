package main

import (
	"fmt"
	"strings"
)

// V is a register / memory slot value. r==nil means a concrete scalar in n
// (or any nil reference / empty string).
type V struct {
	r any
	n uint64
}

// Obj is a heap object: a flat vector of slots.
type Obj struct {
	s     []V
	epoch uint32
	id    uint32 // assigned on demand for map keys / addresses
}

type Str struct {
	s   string
	sym []V // if non-nil, per-byte values (some symbolic)
}

type Slice struct {
	o             *Obj
	off, len, cap int
}

type Agg struct{ s []V }

type Iface struct {
	t *TInfo
	v V
}

type Closure struct {
	fn     *Fn
	bind   []V
	native func(m *M, a []V) V
	name   string
}

type Map struct {
	epoch uint32
	idx   map[mkey]int
	keys  []V
	vals  []V
	live  []bool
	n     int
	sym   bool // some key is symbolic
	kt    *TInfo
	id    uint32
}

type mkey struct {
	p any
	n uint64
	s string
}

// Native wraps opaque engine-side data in a slot.
type Native struct {
	kind string
	v    any
}

func mkStr(s string) V {
	if s == "" {
		return V{}
	}
	return V{r: &Str{s: s}}
}

func mkSymStr(b []V) V {
	if len(b) == 0 {
		return V{}
	}
	for _, x := range b {
		if x.r != nil {
			return V{r: &Str{sym: b}}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.n)
	}
	return V{r: &Str{s: string(bs)}}
}

func strLen(v V) int {
	if v.r == nil {
		return 0
	}
	s := v.r.(*Str)
	if s.sym != nil {
		return len(s.sym)
	}
	return len(s.s)
}

// strC returns the concrete string, ok=false if symbolic.
func strC(v V) (string, bool) {
	if v.r == nil {
		return "", true
	}
	s := v.r.(*Str)
	if s.sym != nil {
		return "", false
	}
	return s.s, true
}

func strBytes(v V) []V {
	if v.r == nil {
		return nil
	}
	s := v.r.(*Str)
	if s.sym != nil {
		return s.sym
	}
	b := make([]V, len(s.s))
	for i := 0; i < len(s.s); i++ {
		b[i].n = uint64(s.s[i])
	}
	return b
}

func mkBool(b bool) V {
	if b {
		return V{n: 1}
	}
	return V{}
}
func mkInt(i int) V { return V{n: uint64(int64(i))} }

func mkTuple(vs ...V) V { return V{r: &Agg{vs}} }

func isSym(v V) bool { _, ok := v.r.(*Term); return ok }

// debug rendering
func (v V) String() string {
	switch r := v.r.(type) {
	case nil:
		return fmt.Sprintf("%d", int64(v.n))
	case *Term:
		return "‹" + r.String() + "›"
	case *Str:
		if r.sym != nil {
			var sb strings.Builder
			sb.WriteString("\"")
			for _, b := range r.sym {
				if b.r != nil {
					sb.WriteString(b.String())
				} else {
					sb.WriteByte(byte(b.n))
				}
			}
			return sb.String() + "\""
		}
		return fmt.Sprintf("%q", r.s)
	case *Obj:
		return fmt.Sprintf("&obj(%d)+%d", len(r.s), v.n)
	case *Slice:
		return fmt.Sprintf("slice[%d:%d]", r.len, r.cap)
	case *Agg:
		s := "{"
		for i, x := range r.s {
			if i > 0 {
				s += ","
			}
			if i > 8 {
				s += "…"
				break
			}
			s += x.String()
		}
		return s + "}"
	case *Iface:
		return fmt.Sprintf("(%s)%s", r.t, r.v)
	case *Closure:
		if r.fn != nil {
			return "func " + r.fn.name
		}
		return "native func " + r.name
	case *Map:
		return fmt.Sprintf("map(%d)", r.n)
	}
	return fmt.Sprintf("%T", v.r)
}
