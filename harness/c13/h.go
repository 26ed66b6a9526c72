// C13: AssignableTo, and what it promises about decoding.
package c13

import (
	"github.com/grafana/thema"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

func sch(body string) thema.Schema {
	lin, err := kit.Bind(rt, "name: \"test\"\nschemas: [{version: [0, 0], schema: "+body+"}]\nlenses: []\n")
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	return lin.First()
}

type U8 struct {
	A uint8 `json:"a"`
}
type I8 struct {
	A int8 `json:"a"`
}
type U16 struct {
	A uint16 `json:"a"`
}
type I64 struct {
	A int64 `json:"a"`
}
type Nested struct {
	N struct {
		A uint8 `json:"a"`
	} `json:"n"`
}
type Opt struct {
	A *uint8 `json:"a,omitempty"`
}
type List struct {
	A []uint16 `json:"a"`
}

// decode checks that data valid for s ends up in T unharmed.
func decode[T any](s thema.Schema, zero T, data string, get func(T) int, want int) {
	ts, err := thema.BindType(s, zero)
	vr.Assert(err == nil, "an assignable schema binds to the type")
	if err != nil {
		return
	}
	in, err := ts.ValidateTyped(kit.Data(rt, data))
	vr.Assert(err == nil, "the data is valid")
	if err != nil {
		return
	}
	t, err := in.Value()
	vr.Assert(err == nil, "every valid instance of an assignable schema decodes into the Go type")
	if err == nil {
		vr.Assert(get(t) == want, "the decoded value is the one in the data")
	}
}

// integer ranges against Go integer types: assignable exactly when the range fits
func H_Ranges() {
	hi := vr.Bound(1000, 70000)
	l, u, x := vr.Int("lo", 0, hi), vr.Int("hi", 0, hi), vr.Int("x", 0, hi)
	vr.Assume(l < u && l <= x && x <= u)
	c := "int & >=" + vr.Lit(l) + " & <=" + vr.Lit(u)
	xs := vr.Lit(x)
	var s thema.Schema
	var err error
	fits := u <= 255
	kind := vr.Choice("type", 7)
	switch kind {
	case 0:
		s = sch("{a: " + c + "}")
		err = thema.AssignableTo(s, &U8{})
	case 1:
		s = sch("{a: " + c + "}")
		err = thema.AssignableTo(s, &I8{})
		fits = u <= 127
	case 2:
		s = sch("{a: " + c + "}")
		err = thema.AssignableTo(s, &U16{})
		fits = u <= 65535
	case 3:
		s = sch("{a: " + c + "}")
		err = thema.AssignableTo(s, &I64{})
		fits = true
	case 4:
		s = sch("{n: a: " + c + "}")
		err = thema.AssignableTo(s, &Nested{})
	case 5:
		s = sch("{a?: " + c + "}")
		err = thema.AssignableTo(s, &Opt{})
	case 6:
		s = sch("{a: [..." + c + "]}")
		err = thema.AssignableTo(s, &List{})
		fits = u <= 65535
	}
	if !fits {
		vr.Reach("too wide")
		vr.Assert(err != nil, "a schema with values the Go type cannot hold is not assignable")
		return
	}
	vr.Reach("fits")
	vr.Assert(err == nil, "a schema whose values all fit the Go type is assignable")
	if err != nil {
		return
	}
	switch kind {
	case 0:
		decode(s, &U8{}, "{a: "+xs+"}", func(t *U8) int { return int(t.A) }, x)
	case 1:
		decode(s, &I8{}, "{a: "+xs+"}", func(t *I8) int { return int(t.A) }, x)
	case 2:
		decode(s, &U16{}, "{a: "+xs+"}", func(t *U16) int { return int(t.A) }, x)
	case 3:
		decode(s, &I64{}, "{a: "+xs+"}", func(t *I64) int { return int(t.A) }, x)
	case 4:
		decode(s, &Nested{}, "{n: a: "+xs+"}", func(t *Nested) int { return int(t.N.A) }, x)
	case 5:
		decode(s, &Opt{}, "{a: "+xs+"}", func(t *Opt) int {
			if t.A == nil {
				return -1
			}
			return int(*t.A)
		}, x)
	case 6:
		decode(s, &List{}, "{a: ["+xs+", "+vr.Lit(l)+"]}", func(t *List) int {
			if len(t.A) != 2 || int(t.A[1]) != l {
				return -1
			}
			return int(t.A[0])
		}, x)
	}
}

type gS struct {
	K int64  `json:"k"`
	F string `json:"f"`
}
type gB struct {
	K int64 `json:"k"`
	F bool  `json:"f"`
}
type gI struct {
	K int64 `json:"k"`
	F int64 `json:"f"`
}
type gSt struct {
	K int64 `json:"k"`
	F struct {
		G int64 `json:"g"`
	} `json:"f"`
}
type gAny struct {
	K int64 `json:"k"`
	F any   `json:"f"`
}
type gL struct {
	K int64   `json:"k"`
	F []int64 `json:"f"`
}
type gArr struct {
	K int64    `json:"k"`
	F [2]int64 `json:"f"`
}
type gNone struct {
	K int64 `json:"k"`
}
type gMore struct {
	K int64  `json:"k"`
	F string `json:"f"`
	X string `json:"x"`
}
type gPS struct {
	K int64   `json:"k"`
	F *string `json:"f,omitempty"`
}
type gLS struct {
	K int64    `json:"k"`
	F []string `json:"f"`
}
type gStMore struct {
	K int64 `json:"k"`
	F struct {
		G int64  `json:"g"`
		H string `json:"h"`
	} `json:"f"`
}

type gotype struct {
	val, ptr any
	bind     func(thema.Schema) (error, error)
}

func gt[T any]() gotype {
	return gotype{*new(T), new(T), func(s thema.Schema) (error, error) {
		_, verr := thema.BindType(s, *new(T))
		_, perr := thema.BindType(s, new(T))
		return verr, perr
	}}
}

// each form of a schema field against each form of a Go field, per the rules in docs/invariants.md
func H_Matrix() {
	u := vr.Int("u", 100, 200)
	c := "int & >=0 & <=" + vr.Lit(u)
	forms := []string{"", "f: string", "f: bool", "f: " + c, "f: {g: " + c + "}", "f: [..." + c + "]", "f: [" + c + ", " + c + "]",
		"f?: string", "f?: " + c, "f: string | *\"d\"", "f: \"a\" | \"b\"", "f: string | bool", "f: null", "f: [...string]", "f: [string, bool]", "f: {g: " + c + ", h: string}"}
	types := []gotype{gt[gNone](), gt[gS](), gt[gB](), gt[gI](), gt[gSt](), gt[gAny](), gt[gL](), gt[gArr](), gt[gMore](), gt[gPS](), gt[gLS](), gt[gStMore]()}
	// which Go types each form may be assigned to
	ok := [][]int{{0}, {1, 5, 9}, {2, 5}, {3, 5}, {4, 5}, {5, 6}, {5, 7}, {1, 5, 9}, {3, 5}, {1, 5, 9}, {1, 5, 9}, {5}, {5}, {5, 10}, {5}, {5, 11}}
	f, t := vr.Choice("form", len(forms)), vr.Choice("gotype", len(types))
	body := "{k: int64"
	if f > 0 {
		body += ", " + forms[f]
	}
	s := sch(body + "}")
	want := false
	for _, k := range ok[f] {
		want = want || k == t
	}
	err := thema.AssignableTo(s, types[t].ptr)
	if err == nil {
		vr.Reach("assignable")
		vr.Assert(want, "only the Go types the rules allow are assignable")
	} else {
		vr.Reach("not assignable")
		vr.Assert(!want, "the Go types the rules allow are assignable")
	}
	vr.Assert((thema.AssignableTo(s, types[t].val) == nil) == (err == nil), "a struct and a pointer to it are treated alike")
	verr, perr := types[t].bind(s)
	vr.Assert((verr == nil) == (err == nil) && (perr == nil) == (err == nil), "BindType succeeds exactly when the schema is assignable")
}

// arguments that are not structs or are nested pointers
func H_Args() {
	u := vr.Int("u", 100, 200)
	s := sch("{a: int & >=0 & <=" + vr.Lit(u) + "}")
	p := &U8{}
	n := 3
	switch vr.Choice("arg", 5) {
	case 0:
		vr.Assert(thema.AssignableTo(s, U8{}) == nil, "a struct is accepted")
	case 1:
		vr.Assert(thema.AssignableTo(s, p) == nil, "a pointer to a struct is accepted")
	case 2:
		vr.Assert(thema.AssignableTo(s, &p) == thema.ErrPointerDepth, "a pointer to a pointer is ErrPointerDepth")
	case 3:
		vr.Assert(thema.AssignableTo(s, n) != nil, "a non-struct is rejected")
	case 4:
		vr.Assert(thema.AssignableTo(s, []U8{}) != nil, "a slice is rejected")
	}
	vr.Reach("end")
}

type e1 struct {
	G int64 `json:"g"`
}
type e2 struct {
	G string `json:"g"`
}
type e3 struct {
	G int64  `json:"g"`
	H string `json:"h"`
}
type fof[T any] struct {
	F T `json:"f"`
}
type oof[T any] struct {
	F T `json:"f,omitempty"`
}

// lists, maps, disjunctions and pointers, at the top or below another struct
func H_Deep() {
	c := "int & >=0 & <=" + vr.Lit(vr.Int("u", 100, 200))
	n := "int & >=0 & <=" + vr.Lit(vr.Int("n", 10, 20))
	s := "{g: " + c + "}"
	type form struct {
		src string
		ok  []int // besides any
	}
	types := []gotype{
		gt[fof[[]e1]](), gt[fof[[]e2]](), gt[fof[[]e3]](), gt[fof[[2]e1]](), gt[fof[[2]e3]](), // 0-4
		gt[fof[e1]](), gt[fof[*e1]](), gt[oof[*e1]](), gt[oof[[]e1]](), // 5-8
		gt[fof[[][]int64]](), gt[fof[[][]string]](), gt[fof[[]int64]](), gt[fof[[2]int64]](), gt[fof[[3]int64]](), // 9-13
		gt[fof[map[string]int64]](), gt[fof[map[string]e1]](), gt[fof[any]](), gt[fof[[]any]](), // 14-17
		gt[fof[fof[e1]]](), gt[fof[fof[any]]](), gt[fof[fof[int64]]](), gt[fof[fof[[]e1]]](), gt[fof[float64]](), // 18-22
	}
	forms := []form{
		{"[..." + s + "]", []int{0, 8, 17}},
		{"[" + s + ", " + s + "]", []int{3}},
		{"[...{g: " + c + ", h: string}]", []int{2, 17}},
		{"[...{g?: " + c + "}]", []int{0, 8, 17}},
		{s, []int{5, 6, 7}},
		{s + " | {h: string}", nil},
		{"[...(" + s + " | {h: string})]", []int{17}},
		{"{f: " + s + " | {h: string}}", []int{19}},
		{"{f: " + s + "}", []int{18, 19}},
		{"{f: {g: " + c + ", h: string}}", []int{19}},
		{"{f: " + c + "}", []int{19, 20}},
		{"{f: [..." + s + "]}", []int{19, 21}},
		{"{f: [...{g: string}]}", []int{19}},
		{"[...[..." + c + "]]", []int{9, 17}},
		{"[...[...string]]", []int{10, 17}},
		{"[" + c + ", " + c + ", ..." + c + "]", []int{11, 17}},
		{"[" + c + ", ..." + n + "]", nil},
		{"[" + n + ", ..." + c + "]", nil},
		{"[" + c + ", " + n + "]", nil},
		{"[" + n + ", " + c + "]", nil},
		{"[" + c + ", " + c + ", " + c + "]", []int{13}},
		{"[..." + c + "] | *[5]", []int{11, 17}},
		{"[...int] | [...string]", nil},
		{"{[string]: " + c + "}", []int{14}},
		{"{[string]: " + s + "}", []int{15}},
		{"float", []int{22}},
	}
	f, t := vr.Choice("form", len(forms)), vr.Choice("gotype", len(types))
	opt := ""
	if vr.Choice("opt", vr.Bound(1, 2)) == 1 {
		opt = "?"
	}
	want := t == 16
	for _, k := range forms[f].ok {
		want = want || k == t
	}
	sc := sch("{f" + opt + ": " + forms[f].src + "}")
	err := thema.AssignableTo(sc, types[t].ptr)
	if err == nil {
		vr.Reach("assignable")
		vr.Assert(want, "only the Go types the rules allow are assignable")
	} else {
		vr.Reach("not assignable")
		vr.Assert(!want, "the Go types the rules allow are assignable")
	}
	verr, perr := types[t].bind(sc)
	vr.Assert((verr == nil) == (err == nil) && (perr == nil) == (err == nil), "BindType succeeds exactly when the schema is assignable")
}

// instances of schemas with structured fields decode into the types they are assignable to
func H_DeepDecode() {
	x, y := vr.Int("x", 100, 199), vr.Int("y", 100, 199)
	xs, ys := vr.Lit(x), vr.Lit(y)
	c := "int & >=0 & <=" + vr.Lit(vr.Int("u", 200, 250))
	s := "{g: " + c + "}"
	switch vr.Choice("case", 8) {
	case 0:
		decode(sch("{f: [..."+s+"]}"), &fof[[]e1]{}, "{f: [{g: "+xs+"}, {g: "+ys+"}]}", func(t *fof[[]e1]) int {
			if len(t.F) != 2 || t.F[1].G != int64(y) {
				return -1
			}
			return int(t.F[0].G)
		}, x)
	case 1:
		decode(sch("{f: ["+s+", "+s+"]}"), &fof[[2]e1]{}, "{f: [{g: "+xs+"}, {g: "+ys+"}]}", func(t *fof[[2]e1]) int {
			if t.F[1].G != int64(y) {
				return -1
			}
			return int(t.F[0].G)
		}, x)
	case 2:
		decode(sch("{f?: "+s+"}"), &oof[*e1]{}, "{f: {g: "+xs+"}}", func(t *oof[*e1]) int {
			if t.F == nil {
				return -1
			}
			return int(t.F.G)
		}, x)
	case 3:
		decode(sch("{f?: "+s+"}"), &oof[*e1]{}, "{}", func(t *oof[*e1]) int {
			if t.F == nil {
				return x
			}
			return -1
		}, x)
	case 4:
		decode(sch("{f: [...[..."+c+"]]}"), &fof[[][]int64]{}, "{f: [[], ["+xs+", "+ys+"]]}", func(t *fof[[][]int64]) int {
			if len(t.F) != 2 || len(t.F[0]) != 0 || len(t.F[1]) != 2 || t.F[1][1] != int64(y) {
				return -1
			}
			return int(t.F[1][0])
		}, x)
	case 5:
		decode(sch("{f: {[string]: "+c+"}}"), &fof[map[string]int64]{}, "{f: {a: "+xs+", b: "+ys+"}}", func(t *fof[map[string]int64]) int {
			if len(t.F) != 2 || t.F["b"] != int64(y) {
				return -1
			}
			return int(t.F["a"])
		}, x)
	case 6:
		decode(sch("{f: {f: [..."+s+"]}}"), &fof[fof[[]e1]]{}, "{f: {f: [{g: "+xs+"}]}}", func(t *fof[fof[[]e1]]) int {
			if len(t.F.F) != 1 {
				return -1
			}
			return int(t.F.F[0].G)
		}, x)
	case 7:
		decode(sch("{f: float}"), &fof[float64]{}, "{f: 1.5}", func(t *fof[float64]) int {
			if t.F != 1.5 {
				return -1
			}
			return x
		}, x)
	}
	vr.Reach("end")
}
