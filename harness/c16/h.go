// C16: typed schemas and typed instances.
package c16

import (
	"github.com/grafana/thema"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

type N struct {
	E int64 `json:"e"`
	F int64 `json:"f"`
}

type T struct {
	A int64   `json:"a"`
	D int64   `json:"d"`
	N N       `json:"n"`
	O *int64  `json:"o,omitempty"`
	L []int64 `json:"l"`
	S string  `json:"s"`
	B bool    `json:"b"`
}

func bind(src string) thema.Lineage {
	lin, err := kit.Bind(rt, src)
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	return lin
}

func eq(a, b T) bool {
	if a.A != b.A || a.D != b.D || a.N != b.N || a.S != b.S || a.B != b.B || len(a.L) != len(b.L) || (a.O == nil) != (b.O == nil) {
		return false
	}
	for i := range a.L {
		if a.L[i] != b.L[i] {
			return false
		}
	}
	return a.O == nil || *a.O == *b.O
}

func scribble(p *T) {
	p.A, p.D, p.N.E, p.N.F, p.S, p.B = 11, 12, 13, 14, "scribbled", true
	for i := range p.L {
		p.L[i] = 77
	}
	if p.O != nil {
		*p.O = 15
	}
}

// check runs the typed schema on data, with get turning an X into a *T.
func check[X any](s thema.Schema, zero X, data string, def, want T, get func(*X) *T) {
	ts, err := thema.BindType(s, zero)
	vr.Assert(err == nil, "the type binds")
	if err != nil {
		return
	}
	n1 := ts.NewT()
	vr.Assert(eq(*get(&n1), def), "NewT holds the schema's defaults and otherwise zero values")
	scribble(get(&n1))
	n2 := ts.NewT()
	vr.Assert(eq(*get(&n2), def), "writing to one new value does not show in the next")

	v := kit.Data(rt, data)
	in, err := ts.ValidateTyped(v)
	vr.Assert(err == nil && in != nil, "the data is valid")
	if err != nil || in == nil {
		return
	}
	vr.Assert(in.Underlying() == v, "the instance holds the data it was given")
	vr.Assert(in.TypedSchema() == ts && in.Schema() == s, "the instance carries its schema")
	x1, err := in.Value()
	vr.Assert(err == nil, "a valid instance decodes")
	if err != nil {
		return
	}
	vr.Assert(eq(*get(&x1), want), "Value holds the data, and defaults where there is none")
	scribble(get(&x1))
	x2 := in.ValueP()
	vr.Assert(eq(*get(&x2), want), "writing to one decoded value does not show in the next")
	n3 := ts.NewT()
	vr.Assert(eq(*get(&n3), def), "decoding does not change the defaults")
	vr.Observe("a", want.A)
}

// defaults and data, for a type given as a struct or as a pointer to one
func H_Values() {
	d, e, l0, l1 := vr.Int("defd", 100, 199), vr.Int("defe", 100, 199), vr.Int("defl0", 100, 199), vr.Int("defl1", 100, 199)
	src := "name: \"test\"\nschemas: [{version: [0, 0], schema: {a: int64, d: int64 | *" + vr.Lit(d) +
		", n: {e: int64 | *" + vr.Lit(e) + ", f: int64}, o?: int64, l: [...int64] | *[" + vr.Lit(l0) + ", " + vr.Lit(l1) + "], s: string | *\"dflt\", b: bool}}]\nlenses: []\n"
	s := bind(src).First()
	def := T{D: int64(d), N: N{E: int64(e)}, L: []int64{int64(l0), int64(l1)}, S: "dflt"}
	want := def
	p := func(name string) (int64, string, bool) {
		x := vr.Int(name, 200, 299)
		return int64(x), vr.Lit(x), vr.Choice("has_"+name, 2) == 1
	}
	a := vr.Int("a", 200, 299)
	want.A, want.B = int64(a), vr.Bool("b")
	data := "{a: " + vr.Lit(a) + ", b: "
	if want.B {
		data += "true"
	} else {
		data += "false"
	}
	if x, lit, ok := p("d"); ok {
		data += ", d: " + lit
		want.D = x
	}
	f := vr.Int("f", 200, 299)
	want.N.F = int64(f)
	data += ", n: {f: " + vr.Lit(f)
	if x, lit, ok := p("e"); ok {
		data += ", e: " + lit
		want.N.E = x
	}
	data += "}"
	if x, lit, ok := p("o"); ok {
		data += ", o: " + lit
		want.O = &x
	}
	switch vr.Choice("list", vr.Bound(4, 5)) {
	case 1:
		data += ", l: []"
		want.L = []int64{}
	case 2:
		x, lit, _ := p("l0")
		data += ", l: [" + lit + "]"
		want.L = []int64{x}
	case 3:
		x, lx, _ := p("l0")
		y, ly, _ := p("l1")
		data += ", l: [" + lx + ", " + ly + ", 7]"
		want.L = []int64{x, y, 7}
	case 4:
		x, lx, _ := p("l0")
		data += ", l: [" + lx + ", 6, 7, 8, 9]"
		want.L = []int64{x, 6, 7, 8, 9}
	}
	if vr.Choice("s", 2) == 1 {
		data += ", s: \"given\""
		want.S = "given"
	}
	data += "}"
	if vr.Choice("pointer", 2) == 1 {
		vr.Reach("pointer")
		check(s, &T{}, data, def, want, func(x **T) *T { return *x })
	} else {
		vr.Reach("struct")
		check(s, T{}, data, def, want, func(x *T) *T { return x })
	}
}

type V struct {
	X int64 `json:"x"`
}

// ValidateTyped gives the verdict of Validate
func H_Verdict() {
	lo, hi, x := vr.Int("lo", 100, 999), vr.Int("hi", 100, 999), vr.Int("x", 100, 999)
	vr.Assume(lo < hi)
	s := bind("name: \"test\"\nschemas: [{version: [0, 0], schema: {x: int64 & >=" + vr.Lit(lo) + " & <=" + vr.Lit(hi) + "}}]\nlenses: []\n").First()
	ts, err := thema.BindType(s, &V{})
	vr.Assert(err == nil, "the type binds")
	vr.Assume(err == nil)
	data := "{x: " + vr.Lit(x) + "}"
	ok := lo <= x && x <= hi
	switch vr.Choice("form", 4) {
	case 1:
		data, ok = "{x: "+vr.Lit(x)+", y: 1}", false
	case 2:
		data, ok = "{}", false
	case 3:
		data, ok = "{x: \"s\"}", false
	}
	v := kit.Data(rt, data)
	in, err := s.Validate(v)
	tin, terr := ts.ValidateTyped(v)
	vr.Assert((err == nil) == ok, "Validate accepts exactly the conforming data")
	vr.Assert((terr == nil) == ok && (tin != nil) == ok, "ValidateTyped accepts exactly what Validate accepts")
	if ok {
		vr.Reach("valid")
		vr.Assert(in.Underlying() == tin.Underlying(), "both hold the data")
	} else if err != nil && terr != nil {
		vr.Reach("invalid")
		vr.Assert(err.Error() == terr.Error(), "both give the same reason")
	}
}

// an instance takes on a typed schema exactly when it is an instance of that very schema
func H_BindInstance() {
	shapes := kit.Shapes(vr.Bound(9, 15))
	vs := kit.Versions(shapes[vr.Choice("shape", len(shapes))])
	src := "name: \"test\"\nschemas: ["
	for _, v := range vs {
		src += "{version: " + kit.Ver(v) + ", schema: {x: int64, y" + kit.Itoa(int(v[0])) + ": int64"
		src += "}},\n"
	}
	src += "]\nlenses: ["
	for _, p := range kit.LensPairs(vs) {
		src += "{to: " + kit.Ver(vs[p[0]]) + ", from: " + kit.Ver(vs[p[1]]) + ", input: _, result: {x: input.x, y" + kit.Itoa(int(vs[p[0]][0])) + ": 1}},\n"
	}
	src += "]\n"
	lin := bind(src)
	other := lin
	same := vr.Choice("same", 2) == 1
	if !same {
		other = bind(src)
	}
	i, j := vr.Choice("inst", len(vs)), vr.Choice("typed", len(vs))
	x := vr.Int("x", 100, 999)
	in, err := thema.SchemaP(other, vs[i]).Validate(kit.Data(rt, "{x: "+vr.Lit(x)+", y"+kit.Itoa(int(vs[i][0]))+": 5}"))
	vr.Assert(err == nil, "the data is valid")
	vr.Assume(err == nil)
	s := thema.SchemaP(lin, vs[j])
	ok := false
	switch vs[j][0] {
	case 0:
		ok = try(s, &Y0{}, in, lin, x)
	case 1:
		ok = try(s, &Y1{}, in, lin, x)
	case 2:
		ok = try(s, &Y2{}, in, lin, x)
	case 3:
		ok = try(s, &Y3{}, in, lin, x)
	default:
		ok = try(s, &Y4{}, in, lin, x)
	}
	vr.Assert(ok == (same && i == j), "an instance binds to a typed schema exactly when it is an instance of that schema")
	if ok {
		vr.Reach("bound")
	}
}

type Y0 struct {
	X int64 `json:"x"`
	Y int64 `json:"y0"`
}
type Y1 struct {
	X int64 `json:"x"`
	Y int64 `json:"y1"`
}
type Y2 struct {
	X int64 `json:"x"`
	Y int64 `json:"y2"`
}
type Y3 struct {
	X int64 `json:"x"`
	Y int64 `json:"y3"`
}
type Y4 struct {
	X int64 `json:"x"`
	Y int64 `json:"y4"`
}

func (y *Y0) x() int { return int(y.X) }
func (y *Y1) x() int { return int(y.X) }
func (y *Y2) x() int { return int(y.X) }
func (y *Y3) x() int { return int(y.X) }
func (y *Y4) x() int { return int(y.X) }

func try[X interface{ x() int }](s thema.Schema, zero X, in *thema.Instance, lin thema.Lineage, x int) bool {
	ts, err := thema.BindType(s, zero)
	vr.Assert(err == nil, "the type binds")
	vr.Assume(err == nil)
	cl := ts.ConvergentLineage()
	vr.Assert(cl.TypedSchema() == ts, "the convergent lineage leads back to the typed schema")
	vr.Assert(cl.Name() == lin.Name() && cl.Latest() == lin.Latest() && cl.First() == lin.First() && len(cl.All()) == len(lin.All()), "the convergent lineage is the lineage")
	vr.Assert(ts.Version() == s.Version() && ts.Successor() == s.Successor() && ts.Predecessor() == s.Predecessor(), "the typed schema is the schema")
	ti, err := thema.BindInstanceType[X](in, ts)
	vr.Assert((ti != nil) == (err == nil), "an instance or an error")
	if err != nil {
		return false
	}
	vr.Assert(ti.TypedSchema() == ts && ti.Underlying() == in.Underlying(), "the typed instance holds the data and the typed schema")
	v, err := ti.Value()
	vr.Assert(err == nil && v.x() == x, "the typed instance decodes to its data")
	return true
}

// instances that did not come from validation are unusable
func H_Forged() {
	i := new(thema.Instance)
	if vr.Choice("dirty", 2) == 1 {
		*i = thema.Instance{}
	}
	ti := &thema.TypedInstance[*V]{Instance: i}
	p := false
	switch vr.Choice("op", 10) {
	case 0:
		p = vr.Call(func() { i.Underlying() })
	case 1:
		p = vr.Call(func() { i.Schema() })
	case 2:
		p = vr.Call(func() { i.Hydrate() })
	case 3:
		p = vr.Call(func() { i.Dehydrate() })
	case 4:
		p = vr.Call(func() { i.AsSuccessor() })
	case 5:
		p = vr.Call(func() { i.AsPredecessor() })
	case 6:
		p = vr.Call(func() { i.Translate(thema.SV(0, 0)) })
	case 7:
		p = vr.Call(func() { ti.Value() })
	case 8:
		p = vr.Call(func() { ti.ValueP() })
	case 9:
		p = vr.Call(func() { ti.TypedSchema() })
	}
	vr.Assert(p, "an instance that did not come from validation is unusable")
}

type El struct {
	P int64  `json:"p"`
	Q *int64 `json:"q,omitempty"`
}

type L struct {
	L []El             `json:"l"`
	M map[string]int64 `json:"m"`
	O *El              `json:"o,omitempty"`
}

func is(e El, p int, hasQ bool, q int) bool {
	return e.P == int64(p) && (e.Q != nil) == hasQ && (!hasQ || *e.Q == int64(q))
}

// defaults inside list elements and optional structs, and default lists of structs
func H_Elems() {
	dp, dq := vr.Int("defp", 100, 199), vr.Int("defq", 100, 199)
	p, q, m := vr.Int("p", 200, 299), vr.Int("q", 200, 299), vr.Int("m", 200, 299)
	qdef := vr.Choice("qdef", 2) == 1 // q has a default, or is optional
	deflist := vr.Choice("deflist", 2) == 1
	el := "{p: int64 | *" + vr.Lit(dp) + ", q?: int64}"
	if qdef {
		el = "{p: int64 | *" + vr.Lit(dp) + ", q: int64 | *" + vr.Lit(dq) + "}"
	}
	lt := "[..." + el + "]"
	if deflist {
		lt += " | *[{p: 11, q: 12}, {p: 13, q: 14}]"
	}
	s := bind("name: \"test\"\nschemas: [{version: [0, 0], schema: {l: " + lt + ", m: {[string]: int64}, o?: " + el + "}}]\nlenses: []\n").First()
	ts, err := thema.BindType(s, &L{})
	vr.Assert(err == nil, "the type binds")
	vr.Assume(err == nil)
	// an element with some of its fields
	given := false
	elem := func(name string) (src string, ok func(El) bool) {
		wp, wq, has := dp, dq, qdef
		src = "{"
		k := vr.Choice(name, 4)
		given = given || k > 0
		if k&1 == 1 {
			src += "p: " + vr.Lit(p) + ", "
			wp = p
		}
		if k&2 == 2 {
			src += "q: " + vr.Lit(q)
			wq, has = q, true
		}
		return src + "}", func(e El) bool { return is(e, wp, has, wq) }
	}
	data := "{m: {k: " + vr.Lit(m) + "}"
	n := vr.Choice("n", 4) - 1
	var oks []func(El) bool
	if n >= 0 {
		data += ", l: ["
		for i := 0; i < n; i++ {
			src, ok := elem("e" + kit.Itoa(i))
			data += src + ", "
			oks = append(oks, ok)
		}
		data += "]"
		// empty elements, as many as the default list has, stand for that list in CUE
		vr.Assume(!deflist || n != 2 || given)
	}
	hasO := vr.Choice("o", 2) == 1
	var oko func(El) bool
	if hasO {
		src, ok := elem("eo")
		data += ", o: " + src
		oko = ok
	}
	in, err := ts.ValidateTyped(kit.Data(rt, data+"}"))
	vr.Assert(err == nil, "the data is valid")
	vr.Assume(err == nil)
	v, err := in.Value()
	vr.Assert(err == nil, "a valid instance decodes")
	vr.Assume(err == nil)
	vr.Assert(len(v.M) == 1 && v.M["k"] == int64(m), "a map holds the data's entries")
	switch {
	case n >= 0:
		vr.Assert(len(v.L) == n, "a list has the data's elements")
		for i := 0; i < n && i < len(v.L); i++ {
			vr.Assert(oks[i](v.L[i]), "an element of a list holds the data's fields, and its own defaults where there are none")
		}
	case deflist:
		vr.Assert(len(v.L) == 2 && is(v.L[0], 11, true, 12) && is(v.L[1], 13, true, 14), "an absent list has its default elements")
	default:
		vr.Assert(len(v.L) == 0, "an absent list without a default is empty")
	}
	vr.Assert((v.O != nil) == hasO, "an optional struct is there exactly when the data has it")
	if hasO && v.O != nil {
		vr.Assert(oko(*v.O), "an optional struct holds the data's fields, and its own defaults where there are none")
	}
	vr.Reach("end")
}
