package main

import (
	"fmt"
	"go/types"
	"regexp"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt
	KFloat
	KComplex
	KString
	KUnsafe
	KPtr
	KSlice
	KArray
	KStruct
	KMap
	KChan
	KFunc
	KIface
	KTuple
)

// TInfo is the canonical, layout-annotated form of a Go type. Two identical
// Go types share one *TInfo.
type TInfo struct {
	t      types.Type
	kind   Kind
	w      uint8 // bits, for ints/floats
	signed bool
	size   int // flattened slots
	elem   *TInfo
	key    *TInfo
	n      int // array length
	fields []*TInfo
	offs   []int
	id     int
	bytes  int
	noscan bool
	under  types.Type

	mu      sync.Mutex
	methods map[string]*Fn
	zero    V
	rtype   *Obj // reflect identity
	ptrTo   *TInfo
}

func (t *TInfo) agg() bool { return t.kind == KStruct || t.kind == KArray || t.kind == KTuple }

var gcSizes = types.SizesFor("gc", "amd64")

// Types canonicalises types.
type Types struct {
	mu   sync.Mutex
	m    typeutil.Map
	n    int
	fast sync.Map
	prog *ssa.Program

	pending []func()
	fresh   []freshT
}

type freshT struct {
	t  types.Type
	ti *TInfo
}

func newTypes(p *ssa.Program) *Types {
	ts := &Types{prog: p}
	ts.m.SetHasher(typeutil.MakeHasher())
	return ts
}

func (ts *Types) Of(t types.Type) *TInfo {
	if v, ok := ts.fast.Load(t); ok {
		return v.(*TInfo)
	}
	ts.mu.Lock()
	defer ts.mu.Unlock()
	return ts.top(t)
}

// top resolves t and everything reachable through pointers; only then do the
// new types become visible to other workers.
func (ts *Types) top(t types.Type) *TInfo {
	ti := ts.of(t)
	for len(ts.pending) > 0 {
		f := ts.pending[len(ts.pending)-1]
		ts.pending = ts.pending[:len(ts.pending)-1]
		f()
	}
	for _, x := range ts.fresh {
		ts.fast.Store(x.t, x.ti)
	}
	ts.fresh = ts.fresh[:0]
	return ti
}

func (ts *Types) later(f func()) { ts.pending = append(ts.pending, f) }

func (ts *Types) of(t types.Type) *TInfo {
	if v, ok := ts.fast.Load(t); ok {
		return v.(*TInfo)
	}
	t0 := t
	t = types.Unalias(t)
	if v := ts.m.At(t); v != nil {
		ts.fresh = append(ts.fresh, freshT{t0, v.(*TInfo)})
		return v.(*TInfo)
	}
	ti := &TInfo{t: t, under: t.Underlying(), id: ts.n, size: 1}
	ts.n++
	ts.m.Set(t, ti)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			ti.kind = KBool
		case types.Int, types.Int64, types.UntypedInt:
			ti.kind, ti.w, ti.signed = KInt, 64, true
		case types.Int8:
			ti.kind, ti.w, ti.signed = KInt, 8, true
		case types.Int16:
			ti.kind, ti.w, ti.signed = KInt, 16, true
		case types.Int32, types.UntypedRune:
			ti.kind, ti.w, ti.signed = KInt, 32, true
		case types.Uint, types.Uint64, types.Uintptr:
			ti.kind, ti.w = KInt, 64
		case types.Uint8:
			ti.kind, ti.w = KInt, 8
		case types.Uint16:
			ti.kind, ti.w = KInt, 16
		case types.Uint32:
			ti.kind, ti.w = KInt, 32
		case types.Float32:
			ti.kind, ti.w = KFloat, 32
		case types.Float64, types.UntypedFloat:
			ti.kind, ti.w = KFloat, 64
		case types.Complex64, types.Complex128, types.UntypedComplex:
			ti.kind = KComplex
		case types.String, types.UntypedString:
			ti.kind = KString
		case types.UnsafePointer:
			ti.kind = KUnsafe
		case types.UntypedNil:
			ti.kind = KPtr
		default:
			ti.kind = KInvalid
		}
	case *types.Pointer:
		ti.kind = KPtr
		ts.later(func() { ti.elem = ts.of(u.Elem()) })
	case *types.Slice:
		ti.kind = KSlice
		ts.later(func() { ti.elem = ts.of(u.Elem()) })
	case *types.Array:
		ti.kind = KArray
		ti.elem = ts.of(u.Elem())
		ti.n = int(u.Len())
		ti.size = ti.n * ti.elem.size
	case *types.Struct:
		ti.kind = KStruct
		off := 0
		for i := 0; i < u.NumFields(); i++ {
			f := ts.of(u.Field(i).Type())
			ti.fields = append(ti.fields, f)
			ti.offs = append(ti.offs, off)
			off += f.size
		}
		ti.size = off
	case *types.Map:
		ti.kind = KMap
		ts.later(func() { ti.key = ts.of(u.Key()); ti.elem = ts.of(u.Elem()) })
	case *types.Chan:
		ti.kind = KChan
		ts.later(func() { ti.elem = ts.of(u.Elem()) })
	case *types.Signature:
		ti.kind = KFunc
	case *types.Interface:
		ti.kind = KIface
	case *types.Tuple:
		ti.kind = KTuple
		off := 0
		for i := 0; i < u.Len(); i++ {
			f := ts.of(u.At(i).Type())
			ti.fields = append(ti.fields, f)
			ti.offs = append(ti.offs, off)
			off += f.size
		}
		ti.size = off
	case *types.TypeParam:
		ti.kind = KInvalid
	default:
		ti.kind = KInvalid // e.g. ssa's opaque iterator types
	}
	if ti.kind != KInvalid && ti.kind != KTuple {
		func() {
			defer func() { recover() }()
			ti.bytes = int(gcSizes.Sizeof(t))
		}()
	}
	switch ti.kind {
	case KBool, KInt, KFloat, KComplex:
		ti.noscan = true
	case KArray:
		ti.noscan = ti.elem.noscan
	case KStruct:
		ti.noscan = true
		for _, f := range ti.fields {
			ti.noscan = ti.noscan && f.noscan
		}
	}
	if ti.agg() {
		ti.zero = V{r: &Agg{make([]V, ti.size)}}
	}
	ts.fresh = append(ts.fresh, freshT{t0, ti}, freshT{t, ti})
	return ti
}

func (ts *Types) PtrTo(t *TInfo) *TInfo {
	ts.mu.Lock()
	defer ts.mu.Unlock()
	if t.ptrTo == nil {
		t.ptrTo = ts.top(types.NewPointer(t.t))
	}
	return t.ptrTo
}

func (t *TInfo) String() string {
	if t == nil {
		return "<nil type>"
	}
	return types.TypeString(t.t, nil)
}

// name as reflect's Type.String would print it (package name qualified).
func (t *TInfo) reflString() string {
	s := types.TypeString(t.t, func(p *types.Package) string { return p.Name() })
	s = reflWords.ReplaceAllStringFunc(s, func(w string) string {
		switch w {
		case "byte":
			return "uint8"
		case "rune":
			return "int32"
		case "any", "interface{}":
			return "interface {}"
		}
		return w
	})
	return s
}

var reflWords = regexp.MustCompile(`\binterface\{\}|\bbyte\b|\brune\b|\bany\b|[\w.]+`)

var _ = fmt.Sprint

var universeByte = types.Typ[types.Uint8]
