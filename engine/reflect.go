package main

import (
	"fmt"
	"go/token"
	"go/types"
	"reflect"
	"sort"
)

// reflect model. A reflect.Value is 3 slots: [0].r=*TInfo, [1]=value or
// address, [2].n=flags.
const (
	rfAddr = 1
	rfRO   = 2
)

type rval struct {
	t     *TInfo
	v     V // value, or pointer if flags&rfAddr
	flags uint64
	meth  *Closure // method value
}

func unRV(v V) rval {
	a := v.r.(*Agg)
	t, _ := a.s[0].r.(*TInfo)
	r := rval{t: t, v: a.s[1], flags: a.s[2].n}
	return r
}

func (r rval) pack() V {
	if r.t == nil {
		return V{r: &Agg{make([]V, 3)}}
	}
	return V{r: &Agg{[]V{{r: r.t}, r.v, {n: r.flags}}}}
}

func (m *M) rget(r rval) V {
	if r.flags&rfAddr != 0 {
		return m.load(r.v, r.t)
	}
	return r.v
}

func (m *M) rset(r rval, v V) {
	if r.flags&rfAddr == 0 {
		m.throwStr("reflect: reflect.Value.Set using unaddressable value")
	}
	if r.flags&rfRO != 0 {
		m.throwStr("reflect: reflect.Value.Set using value obtained using unexported field")
	}
	m.store(r.v, v, r.t)
}

// rtypeObj is the unique identity object of a type.
func (P *Prog) rtypeObj(t *TInfo) *Obj {
	t.mu.Lock()
	defer t.mu.Unlock()
	if t.rtype == nil {
		t.rtype = &Obj{s: []V{{r: t}}, epoch: 1 << 30}
	}
	return t.rtype
}

func (P *Prog) rtypeT() *TInfo {
	return P.T.PtrTo(P.T.Of(P.pkgs["reflect"].Type("rtype").Type()))
}

// mkType makes a reflect.Type interface value.
func (m *M) mkType(t *TInfo) V {
	if t == nil {
		return V{}
	}
	return V{r: &Iface{t: m.P.rtypeT(), v: V{r: m.P.rtypeObj(t)}}}
}

func typeOfRecv(v V) *TInfo { return v.r.(*Obj).s[0].r.(*TInfo) }

// typeArg extracts the TInfo from a reflect.Type interface value.
func (m *M) typeArg(v V) *TInfo {
	i, _ := v.r.(*Iface)
	if i == nil {
		m.nilDeref()
	}
	switch x := i.v.r.(type) {
	case *Obj:
		return x.s[0].r.(*TInfo)
	case *Agg:
		return x.s[0].r.(*Obj).s[0].r.(*TInfo)
	}
	unsupported("reflect type %T", i.v.r)
	return nil
}

func rkind(t *TInfo) uint64 {
	switch t.kind {
	case KBool:
		return 1
	case KInt:
		b, _ := t.under.(*types.Basic)
		switch b.Kind() {
		case types.Int:
			return 2
		case types.Int8:
			return 3
		case types.Int16:
			return 4
		case types.Int32:
			return 5
		case types.Int64:
			return 6
		case types.Uint:
			return 7
		case types.Uint8:
			return 8
		case types.Uint16:
			return 9
		case types.Uint32:
			return 10
		case types.Uint64:
			return 11
		case types.Uintptr:
			return 12
		}
	case KFloat:
		if t.w == 32 {
			return 13
		}
		return 14
	case KComplex:
		return 16
	case KArray:
		return 17
	case KChan:
		return 18
	case KFunc:
		return 19
	case KIface:
		return 20
	case KMap:
		return 21
	case KPtr:
		return 22
	case KSlice:
		return 23
	case KString:
		return 24
	case KStruct:
		return 25
	case KUnsafe:
		return 26
	}
	return 0
}

func exported(n string) bool { return token.IsExported(n) }

func (m *M) toIface(v V, t *TInfo) V {
	if t.kind == KIface {
		return v
	}
	return V{r: &Iface{t: t, v: v}}
}

// assign converts a value of type from for storage in type to.
func (m *M) assignTo(v V, from, to *TInfo) V {
	if from == to {
		return v
	}
	if to.kind == KIface {
		it := to.under.(*types.Interface)
		if from.kind == KIface {
			i, _ := v.r.(*Iface)
			if i != nil && !m.P.implements(i.t, to, it) {
				m.throwStr("reflect.Set: value of type " + from.reflString() + " is not assignable to type " + to.reflString())
			}
			return v
		}
		if !m.P.implements(from, to, it) {
			m.throwStr("reflect.Set: value of type " + from.reflString() + " is not assignable to type " + to.reflString())
		}
		return V{r: &Iface{t: from, v: v}}
	}
	if types.AssignableTo(from.t, to.t) {
		return v
	}
	m.throwStr("reflect.Set: value of type " + from.reflString() + " is not assignable to type " + to.reflString())
	return V{}
}

func (m *M) structFieldV(t *TInfo, i int) V {
	st := t.under.(*types.Struct)
	f := st.Field(i)
	sft := m.P.T.Of(m.P.pkgs["reflect"].Type("StructField").Type())
	a := &Agg{make([]V, sft.size)}
	a.s[sft.offs[0]] = mkStr(f.Name())
	if !f.Exported() && f.Pkg() != nil {
		a.s[sft.offs[1]] = mkStr(f.Pkg().Path())
	}
	a.s[sft.offs[2]] = m.mkType(t.fields[i])
	a.s[sft.offs[3]] = mkStr(st.Tag(i))
	a.s[sft.offs[4]] = mkInt(t.offs[i])
	a.s[sft.offs[5]] = V{r: &Slice{&Obj{s: []V{mkInt(i)}, epoch: m.epoch}, 0, 1, 1}}
	a.s[sft.offs[6]] = mkBool(f.Anonymous())
	return V{r: a}
}

func (m *M) rfield(r rval, i int) rval {
	t := r.t
	st := t.under.(*types.Struct)
	f := st.Field(i)
	fl := r.flags
	if !f.Exported() {
		fl |= rfRO
	}
	if r.flags&rfAddr != 0 {
		return rval{t: t.fields[i], v: V{r: r.v.r, n: r.v.n + uint64(t.offs[i])}, flags: fl}
	}
	return rval{t: t.fields[i], v: aggField(r.v, t.offs[i], t.fields[i]), flags: fl}
}

// methods sorted by name, exported only
func (P *Prog) rmethods(t *TInfo) []*types.Func {
	var out []*types.Func
	P.mu.Lock()
	ms := P.prog.MethodSets.MethodSet(t.t)
	for i := 0; i < ms.Len(); i++ {
		f := ms.At(i).Obj().(*types.Func)
		if t.kind == KIface || f.Exported() {
			out = append(out, f)
		}
	}
	P.mu.Unlock()
	sort.Slice(out, func(i, j int) bool { return out[i].Name() < out[j].Name() })
	return out
}

func init() {
	// --- reflect.Type
	typeOf := func(m *M, a []V) V {
		i, _ := a[0].r.(*Iface)
		if i == nil {
			return V{}
		}
		return m.mkType(i.t)
	}
	reg("reflect.TypeOf", typeOf)
	reg("reflect.rtypeOf", func(m *M, a []V) V {
		i, _ := a[0].r.(*Iface)
		return V{r: m.P.rtypeObj(i.t)}
	})
	// reflectlite: rtype struct{*abi.Type}
	rlType := func(m *M, t *TInfo) V {
		if t == nil {
			return V{}
		}
		return V{r: &Iface{t: m.P.T.Of(m.P.pkgs["internal/reflectlite"].Type("rtype").Type()), v: V{r: &Agg{[]V{{r: m.P.rtypeObj(t)}}}}}}
	}
	reg("internal/reflectlite.TypeOf", func(m *M, a []V) V {
		i, _ := a[0].r.(*Iface)
		if i == nil {
			return V{}
		}
		return rlType(m, i.t)
	})
	rlRecv := func(v V) *TInfo {
		switch x := v.r.(type) {
		case *Agg:
			return x.s[0].r.(*Obj).s[0].r.(*TInfo)
		case *Obj:
			if t, ok := x.s[0].r.(*TInfo); ok {
				return t
			}
			return x.s[0].r.(*Obj).s[0].r.(*TInfo)
		}
		return nil
	}
	type tm struct {
		name string
		f    func(m *M, t *TInfo, a []V) V
	}
	implements := func(m *M, t, u *TInfo) V {
		if u.kind != KIface {
			m.throwStr("reflect: non-interface type passed to Type.Implements")
		}
		return mkBool(m.P.implements(t, u, u.under.(*types.Interface)))
	}
	common := []tm{
		{"Kind", func(m *M, t *TInfo, a []V) V { return V{n: rkind(t)} }},
		{"String", func(m *M, t *TInfo, a []V) V { return mkStr(t.reflString()) }},
		{"Name", func(m *M, t *TInfo, a []V) V {
			switch x := t.t.(type) {
			case *types.Named:
				n := x.Obj().Name()
				if x.TypeArgs().Len() > 0 {
					n += "["
					for i := 0; i < x.TypeArgs().Len(); i++ {
						if i > 0 {
							n += ","
						}
						n += types.TypeString(x.TypeArgs().At(i), func(p *types.Package) string { return p.Path() })
					}
					n += "]"
				}
				return mkStr(n)
			case *types.Basic:
				return mkStr(types.Typ[x.Kind()].Name())
			}
			return V{}
		}},
		{"PkgPath", func(m *M, t *TInfo, a []V) V {
			if x, ok := t.t.(*types.Named); ok && x.Obj().Pkg() != nil {
				return mkStr(x.Obj().Pkg().Path())
			}
			return V{}
		}},
		{"Len", func(m *M, t *TInfo, a []V) V { return mkInt(t.n) }},
		{"Size", func(m *M, t *TInfo, a []V) V { return mkInt(t.bytes) }},
		{"Bits", func(m *M, t *TInfo, a []V) V { return mkInt(int(t.w)) }},
		{"NumField", func(m *M, t *TInfo, a []V) V {
			if t.kind != KStruct {
				m.throwStr("reflect: NumField of non-struct type " + t.reflString())
			}
			return mkInt(len(t.fields))
		}},
		{"NumMethod", func(m *M, t *TInfo, a []V) V { return mkInt(len(m.P.rmethods(t))) }},
		{"Comparable", func(m *M, t *TInfo, a []V) V { return mkBool(types.Comparable(t.t)) }},
		{"NumIn", func(m *M, t *TInfo, a []V) V { return mkInt(t.under.(*types.Signature).Params().Len()) }},
		{"NumOut", func(m *M, t *TInfo, a []V) V { return mkInt(t.under.(*types.Signature).Results().Len()) }},
		{"IsVariadic", func(m *M, t *TInfo, a []V) V { return mkBool(t.under.(*types.Signature).Variadic()) }},
	}
	for _, c := range common {
		c := c
		reg("(*reflect.rtype)."+c.name, func(m *M, a []V) V { return c.f(m, typeOfRecv(a[0]), a[1:]) })
		reg("(internal/reflectlite.rtype)."+c.name, func(m *M, a []V) V { return c.f(m, rlRecv(a[0]), a[1:]) })
		reg("(*internal/reflectlite.rtype)."+c.name, func(m *M, a []V) V { return c.f(m, rlRecv(a[0]), a[1:]) })
	}
	reg("(internal/reflectlite.rtype).Elem", func(m *M, a []V) V { return rlType(m, rlRecv(a[0]).elem) })
	reg("(internal/reflectlite.rtype).Key", func(m *M, a []V) V { return rlType(m, rlRecv(a[0]).key) })
	reg("(internal/reflectlite.rtype).Implements", func(m *M, a []V) V { return implements(m, rlRecv(a[0]), m.typeArg(a[1])) })
	reg("(internal/reflectlite.rtype).AssignableTo", func(m *M, a []V) V {
		return mkBool(types.AssignableTo(rlRecv(a[0]).t, m.typeArg(a[1]).t))
	})
	reg("(internal/reflectlite.rtype).common", func(m *M, a []V) V { return a[0].r.(*Agg).s[0] })
	R := "(*reflect.rtype)."
	reg(R+"Elem", func(m *M, a []V) V {
		t := typeOfRecv(a[0])
		if t.elem == nil {
			m.throwStr("reflect: Elem of invalid type " + t.reflString())
		}
		return m.mkType(t.elem)
	})
	reg(R+"Key", func(m *M, a []V) V { return m.mkType(typeOfRecv(a[0]).key) })
	reg(R+"In", func(m *M, a []V) V {
		return m.mkType(m.P.T.Of(typeOfRecv(a[0]).under.(*types.Signature).Params().At(int(a[1].n)).Type()))
	})
	reg(R+"Out", func(m *M, a []V) V {
		return m.mkType(m.P.T.Of(typeOfRecv(a[0]).under.(*types.Signature).Results().At(int(a[1].n)).Type()))
	})
	reg(R+"Field", func(m *M, a []V) V {
		t := typeOfRecv(a[0])
		if int(a[1].n) >= len(t.fields) {
			m.throwStr("reflect: Field index out of bounds")
		}
		return m.structFieldV(t, int(a[1].n))
	})
	reg(R+"FieldByName", func(m *M, a []V) V {
		t := typeOfRecv(a[0])
		idx, ok := fieldPath(m, t, mustStr(a[1]))
		sft := m.P.T.Of(m.P.pkgs["reflect"].Type("StructField").Type())
		if !ok {
			return mkTuple(sft.zeroV(), V{})
		}
		cur := t
		for _, i := range idx[:len(idx)-1] {
			cur = cur.fields[i]
			if cur.kind == KPtr {
				cur = cur.elem
			}
		}
		sf := m.structFieldV(cur, idx[len(idx)-1])
		o := m.alloc(len(idx))
		for k, i := range idx {
			o.s[k] = mkInt(i)
		}
		sf.r.(*Agg).s[sft.offs[5]] = V{r: &Slice{o, 0, len(idx), len(idx)}}
		return mkTuple(sf, mkBool(true))
	})
	reg(R+"Implements", func(m *M, a []V) V { return implements(m, typeOfRecv(a[0]), m.typeArg(a[1])) })
	reg(R+"AssignableTo", func(m *M, a []V) V { return mkBool(types.AssignableTo(typeOfRecv(a[0]).t, m.typeArg(a[1]).t)) })
	reg(R+"ConvertibleTo", func(m *M, a []V) V { return mkBool(types.ConvertibleTo(typeOfRecv(a[0]).t, m.typeArg(a[1]).t)) })
	reg(R+"common", func(m *M, a []V) V { return a[0] })
	methV := func(m *M, t *TInfo, f *types.Func, i int) V {
		mt := m.P.T.Of(m.P.pkgs["reflect"].Type("Method").Type())
		g := &Agg{make([]V, mt.size)}
		g.s[mt.offs[0]] = mkStr(f.Name())
		g.s[mt.offs[2]] = m.mkType(m.P.T.Of(f.Type()))
		g.s[mt.offs[4]] = mkInt(i)
		return V{r: g}
	}
	reg(R+"Method", func(m *M, a []V) V {
		t := typeOfRecv(a[0])
		return methV(m, t, m.P.rmethods(t)[a[1].n], int(a[1].n))
	})
	reg(R+"MethodByName", func(m *M, a []V) V {
		t := typeOfRecv(a[0])
		n := mustStr(a[1])
		for i, f := range m.P.rmethods(t) {
			if f.Name() == n {
				return mkTuple(methV(m, t, f, i), mkBool(true))
			}
		}
		return mkTuple(m.P.T.Of(m.P.pkgs["reflect"].Type("Method").Type()).zeroV(), V{})
	})
	ptrTo := func(m *M, a []V) V { return m.mkType(m.P.T.PtrTo(m.typeArg(a[0]))) }
	reg("reflect.PointerTo", ptrTo)
	reg("reflect.PtrTo", ptrTo)
	reg("reflect.SliceOf", func(m *M, a []V) V { return m.mkType(m.P.T.Of(types.NewSlice(m.typeArg(a[0]).t))) })
	reg("reflect.MapOf", func(m *M, a []V) V {
		return m.mkType(m.P.T.Of(types.NewMap(m.typeArg(a[0]).t, m.typeArg(a[1]).t)))
	})
	reg("reflect.ArrayOf", func(m *M, a []V) V {
		return m.mkType(m.P.T.Of(types.NewArray(m.typeArg(a[1]).t, int64(a[0].n))))
	})

	// --- reflect.Value
	valueOf := func(m *M, a []V) V {
		i, _ := a[0].r.(*Iface)
		if i == nil {
			return rval{}.pack()
		}
		return rval{t: i.t, v: i.v}.pack()
	}
	reg("reflect.ValueOf", valueOf)
	reg("internal/reflectlite.ValueOf", valueOf)
	reg("reflect.Zero", func(m *M, a []V) V { t := m.typeArg(a[0]); return rval{t: t, v: t.zeroV()}.pack() })
	reg("reflect.New", func(m *M, a []V) V {
		t := m.typeArg(a[0])
		return rval{t: m.P.T.PtrTo(t), v: V{r: m.alloc(t.size)}}.pack()
	})
	reg("reflect.NewAt", func(m *M, a []V) V {
		t := m.typeArg(a[0])
		return rval{t: m.P.T.PtrTo(t), v: a[1]}.pack()
	})
	reg("reflect.MakeSlice", func(m *M, a []V) V {
		t := m.typeArg(a[0])
		return rval{t: t, v: V{r: &Slice{m.alloc(int(a[2].n) * t.elem.size), 0, int(a[1].n), int(a[2].n)}}}.pack()
	})
	mkmap := func(m *M, a []V) V {
		t := m.typeArg(a[0])
		return rval{t: t, v: V{r: m.newMap(t.key)}}.pack()
	}
	reg("reflect.MakeMap", mkmap)
	reg("reflect.MakeMapWithSize", mkmap)
	reg("reflect.Append", func(m *M, a []V) V {
		r := unRV(a[0])
		cur := m.rget(r)
		s, vs := a[1].r.(*Slice)
		_ = vs
		if s != nil {
			for i := 0; i < s.len; i++ {
				e := unRV(V{r: &Agg{s.o.s[s.off+3*i : s.off+3*i+3]}})
				ev := m.assignTo(m.rget(e), e.t, r.t.elem)
				tmp := m.alloc(r.t.elem.size)
				m.store(V{r: tmp}, ev, r.t.elem)
				cur = m.append(cur, V{r: &Slice{tmp, 0, 1, 1}}, r.t.elem)
			}
		}
		return rval{t: r.t, v: cur}.pack()
	})
	reg("reflect.AppendSlice", func(m *M, a []V) V {
		r := unRV(a[0])
		return rval{t: r.t, v: m.append(m.rget(r), m.rget(unRV(a[1])), r.t.elem)}.pack()
	})
	reg("reflect.Copy", func(m *M, a []V) V {
		d, s := unRV(a[0]), unRV(a[1])
		ds, _ := m.rget(d).r.(*Slice)
		ss, _ := m.rget(s).r.(*Slice)
		if ds == nil || ss == nil {
			return V{}
		}
		n := min(ds.len, ss.len)
		m.copyTo(ds.o, ds.off, ss.o.s[ss.off:ss.off+n*d.t.elem.size])
		return mkInt(n)
	})
	swapper := func(m *M, a []V) V {
		i := a[0].r.(*Iface)
		s, _ := i.v.r.(*Slice)
		et := i.t.elem
		return V{r: &Closure{name: "swapper", native: func(m *M, a []V) V {
			x, y := int(a[0].n), int(a[1].n)
			px, py := V{r: s.o, n: uint64(s.off + x*et.size)}, V{r: s.o, n: uint64(s.off + y*et.size)}
			vx, vy := m.load(px, et), m.load(py, et)
			m.store(px, vy, et)
			m.store(py, vx, et)
			return V{}
		}}}
	}
	reg("internal/reflectlite.Swapper", swapper)
	reg("reflect.Swapper", swapper)
	reg("reflect.DeepEqual", func(m *M, a []V) V { return mkBool(m.deepEqualI(a[0], a[1])) })

	vm := func(name string, f func(m *M, r rval, a []V) V) {
		g := func(m *M, a []V) V {
			// receiver may be passed by pointer through wrappers
			return f(m, unRV(a[0]), a[1:])
		}
		reg("(reflect.Value)."+name, g)
		reg("(internal/reflectlite.Value)."+name, g)
	}
	need := func(m *M, r rval, meth string) {
		if r.t == nil {
			m.throwStr("reflect: call of reflect.Value." + meth + " on zero Value")
		}
	}
	vm("Kind", func(m *M, r rval, a []V) V {
		if r.t == nil {
			return V{}
		}
		return V{n: rkind(r.t)}
	})
	reg("(reflect.Kind).String", func(m *M, a []V) V { return mkStr(reflect.Kind(m.conc(a[0], m.P.intT)).String()) })
	reg("(reflect.flag).kind", func(m *M, a []V) V { unsupported("reflect flag.kind"); return V{} })
	vm("IsValid", func(m *M, r rval, a []V) V { return mkBool(r.t != nil) })
	vm("Type", func(m *M, r rval, a []V) V { need(m, r, "Type"); return m.mkType(r.t) })
	reg("(internal/reflectlite.Value).Type", func(m *M, a []V) V { return rlType(m, unRV(a[0]).t) })
	vm("Interface", func(m *M, r rval, a []V) V {
		need(m, r, "Interface")
		if r.flags&rfRO != 0 {
			m.throwStr("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return m.toIface(m.rget(r), r.t)
	})
	reg("reflect.valueInterface", func(m *M, a []V) V { r := unRV(a[0]); return m.toIface(m.rget(r), r.t) })
	vm("CanInterface", func(m *M, r rval, a []V) V { need(m, r, "CanInterface"); return mkBool(r.flags&rfRO == 0) })
	vm("CanAddr", func(m *M, r rval, a []V) V { return mkBool(r.flags&rfAddr != 0) })
	vm("CanSet", func(m *M, r rval, a []V) V { return mkBool(r.flags&(rfAddr|rfRO) == rfAddr) })
	vm("CanInt", func(m *M, r rval, a []V) V { return mkBool(r.t != nil && r.t.kind == KInt && r.t.signed) })
	vm("CanUint", func(m *M, r rval, a []V) V { return mkBool(r.t != nil && r.t.kind == KInt && !r.t.signed) })
	vm("CanFloat", func(m *M, r rval, a []V) V { return mkBool(r.t != nil && r.t.kind == KFloat) })
	vm("Addr", func(m *M, r rval, a []V) V {
		if r.flags&rfAddr == 0 {
			m.throwStr("reflect.Value.Addr of unaddressable value")
		}
		return rval{t: m.P.T.PtrTo(r.t), v: r.v, flags: r.flags & rfRO}.pack()
	})
	vm("Elem", func(m *M, r rval, a []V) V {
		need(m, r, "Elem")
		v := m.rget(r)
		switch r.t.kind {
		case KIface:
			i, _ := v.r.(*Iface)
			if i == nil {
				return rval{}.pack()
			}
			return rval{t: i.t, v: i.v, flags: r.flags & rfRO}.pack()
		case KPtr:
			if v.r == nil {
				return rval{}.pack()
			}
			return rval{t: r.t.elem, v: v, flags: r.flags&rfRO | rfAddr}.pack()
		}
		m.throwStr("reflect: call of reflect.Value.Elem on " + r.t.reflString() + " Value")
		return V{}
	})
	reg("reflect.Indirect", func(m *M, a []V) V {
		r := unRV(a[0])
		if r.t == nil || r.t.kind != KPtr {
			return a[0]
		}
		return natives["(reflect.Value).Elem"](m, a)
	})
	vm("IsNil", func(m *M, r rval, a []V) V {
		need(m, r, "IsNil")
		switch r.t.kind {
		case KPtr, KMap, KSlice, KFunc, KIface, KChan, KUnsafe:
			return mkBool(m.rget(r).r == nil)
		}
		m.throwStr("reflect: call of reflect.Value.IsNil on " + r.t.reflString() + " Value")
		return V{}
	})
	vm("IsZero", func(m *M, r rval, a []V) V {
		need(m, r, "IsZero")
		return mkBool(m.isZero(m.rget(r), r.t))
	})
	vm("Int", func(m *M, r rval, a []V) V { return m.rnum(r, KInt, "Int") })
	vm("Uint", func(m *M, r rval, a []V) V { return m.rnum(r, KInt, "Uint") })
	vm("Float", func(m *M, r rval, a []V) V { return m.rnum(r, KFloat, "Float") })
	vm("Bool", func(m *M, r rval, a []V) V { return m.rnum(r, KBool, "Bool") })
	vm("String", func(m *M, r rval, a []V) V {
		if r.t == nil {
			return mkStr("<invalid Value>")
		}
		if r.t.kind == KString {
			return m.rget(r)
		}
		return mkStr("<" + r.t.reflString() + " Value>")
	})
	vm("Bytes", func(m *M, r rval, a []V) V { return m.rget(r) })
	vm("Len", func(m *M, r rval, a []V) V {
		need(m, r, "Len")
		v := m.rget(r)
		switch r.t.kind {
		case KArray:
			return mkInt(r.t.n)
		case KString:
			return mkInt(strLen(v))
		case KSlice:
			if s, _ := v.r.(*Slice); s != nil {
				return mkInt(s.len)
			}
			return V{}
		case KMap:
			if mp, _ := v.r.(*Map); mp != nil {
				return mkInt(mp.n)
			}
			return V{}
		}
		m.throwStr("reflect: call of reflect.Value.Len on " + r.t.reflString() + " Value")
		return V{}
	})
	vm("Cap", func(m *M, r rval, a []V) V {
		if s, _ := m.rget(r).r.(*Slice); s != nil {
			return mkInt(s.cap)
		}
		return mkInt(r.t.n)
	})
	vm("Index", func(m *M, r rval, a []V) V {
		i := m.conc(a[0], m.P.intT)
		switch r.t.kind {
		case KSlice:
			s, _ := m.rget(r).r.(*Slice)
			if s == nil || i < 0 || i >= s.len {
				m.throwStr("reflect: slice index out of range")
			}
			return rval{t: r.t.elem, v: V{r: s.o, n: uint64(s.off + i*r.t.elem.size)}, flags: r.flags&rfRO | rfAddr}.pack()
		case KArray:
			if i < 0 || i >= r.t.n {
				m.throwStr("reflect: array index out of range")
			}
			if r.flags&rfAddr != 0 {
				return rval{t: r.t.elem, v: V{r: r.v.r, n: r.v.n + uint64(i*r.t.elem.size)}, flags: r.flags}.pack()
			}
			return rval{t: r.t.elem, v: aggField(r.v, i*r.t.elem.size, r.t.elem), flags: r.flags}.pack()
		case KString:
			return rval{t: m.P.byteT(), v: strBytes(m.rget(r))[i]}.pack()
		}
		m.throwStr("reflect: call of reflect.Value.Index on " + r.t.reflString() + " Value")
		return V{}
	})
	vm("NumField", func(m *M, r rval, a []V) V { return mkInt(len(r.t.fields)) })
	vm("Field", func(m *M, r rval, a []V) V {
		if r.t == nil || r.t.kind != KStruct {
			m.throwStr("reflect: call of reflect.Value.Field on non-struct Value")
		}
		return m.rfield(r, int(a[0].n)).pack()
	})
	fieldByIdx := func(m *M, r rval, idx []int) rval {
		for k, i := range idx {
			if k > 0 && r.t.kind == KPtr {
				v := m.rget(r)
				if v.r == nil {
					m.throwStr("reflect: indirection through nil pointer to embedded struct")
				}
				r = rval{t: r.t.elem, v: v, flags: r.flags&rfRO | rfAddr}
			}
			r = m.rfield(r, i)
		}
		return r
	}
	vm("FieldByName", func(m *M, r rval, a []V) V {
		idx, ok := fieldPath(m, r.t, mustStr(a[0]))
		if !ok {
			return rval{}.pack()
		}
		return fieldByIdx(m, r, idx).pack()
	})
	vm("FieldByIndex", func(m *M, r rval, a []V) V {
		_, s := sliceV(a[0])
		var idx []int
		for _, x := range s {
			idx = append(idx, int(x.n))
		}
		return fieldByIdx(m, r, idx).pack()
	})
	vm("FieldByIndexErr", func(m *M, r rval, a []V) V {
		_, s := sliceV(a[0])
		var idx []int
		for _, x := range s {
			idx = append(idx, int(x.n))
		}
		return mkTuple(fieldByIdx(m, r, idx).pack(), V{})
	})
	vm("Call", func(m *M, r rval, a []V) V {
		if r.t == nil || r.t.kind != KFunc {
			m.throwStr("reflect: call of Call on non-function")
		}
		clo, _ := m.rget(r).r.(*Closure)
		if clo == nil {
			m.throwStr("reflect: call of nil function")
		}
		sig := r.t.under.(*types.Signature)
		sl, _ := a[0].r.(*Slice)
		var in []rval
		if sl != nil {
			for i := 0; i < sl.len; i++ {
				in = append(in, unRV(V{r: &Agg{sl.o.s[sl.off+3*i : sl.off+3*i+3]}}))
			}
		}
		np := sig.Params().Len()
		fixed := np
		if sig.Variadic() {
			fixed--
		}
		if len(in) < fixed || !sig.Variadic() && len(in) > np {
			m.throwStr("reflect: Call with the wrong number of arguments")
		}
		var args []V
		for i := 0; i < fixed; i++ {
			args = append(args, m.assignTo(m.rget(in[i]), in[i].t, m.P.T.Of(sig.Params().At(i).Type())))
		}
		if sig.Variadic() {
			et := m.P.T.Of(sig.Params().At(fixed).Type()).elem
			rest := in[fixed:]
			if len(rest) == 0 {
				args = append(args, V{})
			} else {
				o := m.alloc(len(rest) * et.size)
				for i, x := range rest {
					m.store(V{r: o, n: uint64(i * et.size)}, m.assignTo(m.rget(x), x.t, et), et)
				}
				args = append(args, V{r: &Slice{o, 0, len(rest), len(rest)}})
			}
		}
		res := sig.Results()
		return V{r: &tailCall{clo, args, func(m *M, v V) V {
			o := &Obj{epoch: m.epoch}
			for i := 0; i < res.Len(); i++ {
				x := v
				if res.Len() > 1 {
					x = v.r.(*Agg).s[i]
				}
				o.s = append(o.s, rval{t: m.P.T.Of(res.At(i).Type()), v: x}.pack().r.(*Agg).s...)
			}
			if res.Len() == 0 {
				return V{}
			}
			return V{r: &Slice{o, 0, res.Len(), res.Len()}}
		}}}
	})
	vm("MapKeys", func(m *M, r rval, a []V) V {
		mp, _ := m.rget(r).r.(*Map)
		o := &Obj{epoch: m.epoch}
		n := 0
		if mp != nil {
			for i, k := range mp.keys {
				if mp.live[i] {
					o.s = append(o.s, rval{t: r.t.key, v: k, flags: r.flags & rfRO}.pack().r.(*Agg).s...)
					n++
				}
			}
		}
		return V{r: &Slice{o, 0, n, n}}
	})
	vm("MapIndex", func(m *M, r rval, a []V) V {
		mp, _ := m.rget(r).r.(*Map)
		k := unRV(a[0])
		v, ok := m.mapGet(mp, m.assignTo(m.rget(k), k.t, r.t.key), r.t.key)
		if !ok {
			return rval{}.pack()
		}
		return rval{t: r.t.elem, v: v, flags: (r.flags | k.flags) & rfRO}.pack()
	})
	vm("SetMapIndex", func(m *M, r rval, a []V) V {
		mp, _ := m.rget(r).r.(*Map)
		k, e := unRV(a[0]), unRV(a[1])
		kv := m.assignTo(m.rget(k), k.t, r.t.key)
		if e.t == nil {
			if mp != nil {
				m.mapDelete(mp, kv, r.t.key)
			}
			return V{}
		}
		if mp == nil {
			m.throwRT("assignment to entry in nil map")
		}
		m.mapSet(mp, kv, m.assignTo(m.rget(e), e.t, r.t.elem), r.t.key)
		return V{}
	})
	// MapRange: MapIter{m Value; hiter ...}: use slots 0..2 for the map, 3 for position
	vm("MapRange", func(m *M, r rval, a []V) V {
		t := m.P.T.Of(m.P.pkgs["reflect"].Type("MapIter").Type())
		o := m.alloc(max(t.size, 5))
		copy(o.s, r.pack().r.(*Agg).s)
		return V{r: o}
	})
	reg("(*reflect.MapIter).Next", func(m *M, a []V) V {
		o := a[0].r.(*Obj)
		r := unRV(V{r: &Agg{append([]V(nil), o.s[:3]...)}})
		mp, _ := m.rget(r).r.(*Map)
		pos := int(o.s[3].n) // index+1 of current
		if mp == nil {
			return V{}
		}
		for pos < len(mp.keys) && !mp.live[pos] {
			pos++
		}
		if pos >= len(mp.keys) {
			return V{}
		}
		m.set(o, 3, mkInt(pos+1))
		return mkBool(true)
	})
	iterKV := func(val bool) nativeFn {
		return func(m *M, a []V) V {
			o := a[0].r.(*Obj)
			r := unRV(V{r: &Agg{append([]V(nil), o.s[:3]...)}})
			mp, _ := m.rget(r).r.(*Map)
			pos := int(o.s[3].n) - 1
			if val {
				return rval{t: r.t.elem, v: mp.vals[pos], flags: r.flags & rfRO}.pack()
			}
			return rval{t: r.t.key, v: mp.keys[pos], flags: r.flags & rfRO}.pack()
		}
	}
	reg("(*reflect.MapIter).Key", iterKV(false))
	reg("(*reflect.MapIter).Value", iterKV(true))

	vm("Set", func(m *M, r rval, a []V) V {
		x := unRV(a[0])
		if x.t == nil {
			m.throwStr("reflect: call of reflect.Value.Set on zero Value")
		}
		m.rset(r, m.assignTo(m.rget(x), x.t, r.t))
		return V{}
	})
	vm("SetZero", func(m *M, r rval, a []V) V { m.rset(r, r.t.zeroV()); return V{} })
	vm("SetInt", func(m *M, r rval, a []V) V { m.rset(r, m.convert(a[0], i64T, r.t)); return V{} })
	vm("SetUint", func(m *M, r rval, a []V) V { m.rset(r, m.convert(a[0], u64T, r.t)); return V{} })
	vm("SetFloat", func(m *M, r rval, a []V) V { m.rset(r, mkFloat(fl(a[0]), r.t)); return V{} })
	vm("SetBool", func(m *M, r rval, a []V) V { m.rset(r, a[0]); return V{} })
	vm("SetString", func(m *M, r rval, a []V) V { m.rset(r, a[0]); return V{} })
	vm("SetBytes", func(m *M, r rval, a []V) V { m.rset(r, a[0]); return V{} })
	vm("SetLen", func(m *M, r rval, a []V) V {
		s := m.rget(r).r.(*Slice)
		m.rset(r, V{r: &Slice{s.o, s.off, int(a[0].n), s.cap}})
		return V{}
	})
	vm("SetCap", func(m *M, r rval, a []V) V {
		s := m.rget(r).r.(*Slice)
		m.rset(r, V{r: &Slice{s.o, s.off, s.len, int(a[0].n)}})
		return V{}
	})
	vm("Grow", func(m *M, r rval, a []V) V {
		s, _ := m.rget(r).r.(*Slice)
		l, c := 0, 0
		if s != nil {
			l, c = s.len, s.cap
		}
		n := int(a[0].n)
		if l+n > c {
			nc := growCap(c, l+n, r.t.elem)
			o := m.alloc(nc * r.t.elem.size)
			if s != nil {
				copy(o.s, s.o.s[s.off:s.off+l*r.t.elem.size])
			}
			m.rset(r, V{r: &Slice{o, 0, l, nc}})
		}
		return V{}
	})
	vm("Slice", func(m *M, r rval, a []V) V {
		i, j := int(a[0].n), int(a[1].n)
		v := m.rget(r)
		switch r.t.kind {
		case KString:
			return rval{t: r.t, v: subStr(v, i, j)}.pack()
		case KSlice:
			s, _ := v.r.(*Slice)
			if s == nil {
				return rval{t: r.t}.pack()
			}
			return rval{t: r.t, v: V{r: &Slice{s.o, s.off + i*r.t.elem.size, j - i, s.cap - i}}}.pack()
		case KArray:
			if r.flags&rfAddr == 0 {
				m.throwStr("reflect.Value.Slice: slice of unaddressable array")
			}
			return rval{t: m.P.T.Of(types.NewSlice(r.t.elem.t)), v: V{r: &Slice{r.v.r.(*Obj), int(r.v.n) + i*r.t.elem.size, j - i, r.t.n - i}}}.pack()
		}
		unsupported("reflect Slice of %s", r.t)
		return V{}
	})
	vm("Convert", func(m *M, r rval, a []V) V {
		t := m.typeArg(a[0])
		v := m.rget(r)
		if t.kind == KIface {
			return rval{t: t, v: m.assignTo(v, r.t, t)}.pack()
		}
		if !types.ConvertibleTo(r.t.t, t.t) {
			m.throwStr("reflect.Value.Convert: value of type " + r.t.reflString() + " cannot be converted to type " + t.reflString())
		}
		return rval{t: t, v: m.convert(v, r.t, t)}.pack()
	})
	vm("CanConvert", func(m *M, r rval, a []V) V { return mkBool(types.ConvertibleTo(r.t.t, m.typeArg(a[0]).t)) })
	vm("Comparable", func(m *M, r rval, a []V) V { return mkBool(r.t == nil || types.Comparable(r.t.t)) })
	vm("OverflowInt", func(m *M, r rval, a []V) V { return mkBool(normN(a[0].n, r.t.w, true) != a[0].n) })
	vm("OverflowUint", func(m *M, r rval, a []V) V { return mkBool(normN(a[0].n, r.t.w, false) != a[0].n) })
	vm("OverflowFloat", func(m *M, r rval, a []V) V { return mkBool(false) })
	ptr := func(m *M, r rval, a []V) V {
		v := m.rget(r)
		switch x := v.r.(type) {
		case nil:
			return V{}
		case *Obj:
			return V{n: uint64(m.objID(x))<<20 + v.n*8}
		case *Map:
			if x.id == 0 {
				m.nextID++
				x.id = m.nextID
			}
			return V{n: uint64(x.id) << 20}
		case *Slice:
			return V{n: uint64(m.objID(x.o))<<20 + uint64(x.off)*8}
		}
		return V{n: 0xdead0}
	}
	vm("Pointer", ptr)
	vm("UnsafePointer", func(m *M, r rval, a []V) V { return m.rget(r) })
	vm("UnsafeAddr", func(m *M, r rval, a []V) V { return ptr(m, rval{t: m.P.T.PtrTo(r.t), v: r.v}, nil) })
	vm("NumMethod", func(m *M, r rval, a []V) V { return mkInt(len(m.P.rmethods(r.t))) })
	bindM := func(m *M, r rval, f *types.Func) V {
		recv := m.rget(r)
		rt := r.t
		if rt.kind == KIface {
			i, _ := recv.r.(*Iface)
			if i == nil {
				m.throwStr("reflect: Method on nil interface value")
			}
			recv, rt = i.v, i.t
		}
		fn := m.P.method(rt, f)
		sig := f.Type().(*types.Signature)
		c := &Closure{name: f.Name(), native: func(m *M, a []V) V {
			return V{r: &tailCall{fn.clo, append([]V{recv}, a...), nil}}
		}}
		ft := m.P.T.Of(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()))
		return rval{t: ft, v: V{r: c}}.pack()
	}
	vm("Method", func(m *M, r rval, a []V) V { return bindM(m, r, m.P.rmethods(r.t)[a[0].n]) })
	vm("MethodByName", func(m *M, r rval, a []V) V {
		if r.t == nil {
			m.throwStr("reflect: call of reflect.Value.MethodByName on zero Value")
		}
		n := mustStr(a[0])
		for _, f := range m.P.rmethods(r.t) {
			if f.Name() == n {
				return bindM(m, r, f)
			}
		}
		return rval{}.pack()
	})
}

var (
	i64T = &TInfo{kind: KInt, w: 64, signed: true, size: 1}
	u64T = &TInfo{kind: KInt, w: 64, size: 1}
)

func (m *M) rnum(r rval, k Kind, meth string) V {
	if r.t == nil || r.t.kind != k {
		tn := "zero"
		if r.t != nil {
			tn = r.t.reflString()
		}
		m.throwStr("reflect: call of reflect.Value." + meth + " on " + tn + " Value")
	}
	v := m.rget(r)
	if k == KInt {
		return m.convert(v, r.t, map[bool]*TInfo{true: i64T, false: u64T}[r.t.signed])
	}
	return v
}

func (m *M) isZero(v V, t *TInfo) bool {
	if t.agg() {
		if t.kind == KStruct {
			for i, ft := range t.fields {
				if !m.isZero(aggField(v, t.offs[i], ft), ft) {
					return false
				}
			}
			return true
		}
		for i := 0; i < t.n; i++ {
			if !m.isZero(aggField(v, i*t.elem.size, t.elem), t.elem) {
				return false
			}
		}
		return true
	}
	if isSym(v) {
		return m.condV(m.eq(v, V{}, t))
	}
	return v == V{}
}

func fieldPath(m *M, t *TInfo, name string) ([]int, bool) {
	obj, idx, _ := types.LookupFieldOrMethod(t.t, false, nil, name)
	if v, ok := obj.(*types.Var); ok && v.IsField() {
		return idx, true
	}
	// unexported: search with the struct's own package
	if st, ok := t.under.(*types.Struct); ok {
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == name {
				return []int{i}, true
			}
		}
	}
	return nil, false
}

func (m *M) deepEqualI(a, b V) bool {
	x, _ := a.r.(*Iface)
	y, _ := b.r.(*Iface)
	if x == nil || y == nil {
		return x == nil && y == nil
	}
	if x.t != y.t {
		return false
	}
	return m.deepEqual(x.v, y.v, x.t, 0)
}

func (m *M) deepEqual(a, b V, t *TInfo, d int) bool {
	if d > 200 {
		unsupported("deepEqual depth")
	}
	switch t.kind {
	case KPtr:
		if a == b {
			return true
		}
		if a.r == nil || b.r == nil {
			return false
		}
		return m.deepEqual(m.load(a, t.elem), m.load(b, t.elem), t.elem, d+1)
	case KIface:
		return m.deepEqualI(a, b)
	case KSlice:
		x, _ := a.r.(*Slice)
		y, _ := b.r.(*Slice)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		if x.len != y.len {
			return false
		}
		for i := 0; i < x.len; i++ {
			if !m.deepEqual(m.load(V{r: x.o, n: uint64(x.off + i*t.elem.size)}, t.elem), m.load(V{r: y.o, n: uint64(y.off + i*t.elem.size)}, t.elem), t.elem, d+1) {
				return false
			}
		}
		return true
	case KStruct:
		for i, ft := range t.fields {
			if !m.deepEqual(aggField(a, t.offs[i], ft), aggField(b, t.offs[i], ft), ft, d+1) {
				return false
			}
		}
		return true
	case KArray:
		for i := 0; i < t.n; i++ {
			if !m.deepEqual(aggField(a, i*t.elem.size, t.elem), aggField(b, i*t.elem.size, t.elem), t.elem, d+1) {
				return false
			}
		}
		return true
	case KMap:
		x, _ := a.r.(*Map)
		y, _ := b.r.(*Map)
		if x == nil || y == nil {
			return x == nil && y == nil
		}
		if x.n != y.n {
			return false
		}
		for i, k := range x.keys {
			if !x.live[i] {
				continue
			}
			v, ok := m.mapGet(y, k, t.key)
			if !ok || !m.deepEqual(x.vals[i], v, t.elem, d+1) {
				return false
			}
		}
		return true
	case KFunc:
		return a.r == nil && b.r == nil
	}
	return m.condV(m.eq(a, b, t))
}

var _ = fmt.Sprint
