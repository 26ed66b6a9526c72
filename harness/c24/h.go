// C24: a schema's examples are those declared for it, and they are instances.
package c24

import (
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

// names with how they are written
var names = [][2]string{{"ex", "ex"}, {"two words", "\"two words\""}, {"a-b", "\"a-b\""}, {"1st", "\"1st\""}, {"q\"t", "\"q\\\"t\""}, {"", "\"\""}}

// H_Declared: every schema returns exactly its own examples.
func H_Declared() {
	shapes := kit.Shapes(vr.Bound(8, 13))
	vs := kit.Versions(shapes[vr.Choice("shape", len(shapes))])
	at := vr.Choice("at", len(vs))
	first := vr.Choice("first", len(names))
	n := vr.Choice("n", 4)
	xs := make([]int, n)
	src := "name: \"test\"\nschemas: ["
	for i, v := range vs {
		src += "{version: " + kit.Ver(v) + ", schema: " + kit.SchemaBody(v)
		if i == at {
			src += ", examples: {"
			for k := 0; k < n; k++ {
				xs[k] = vr.Int("x"+kit.Itoa(k), 100, 999)
				src += names[(first+k)%len(names)][1] + ": {x: " + vr.Lit(xs[k]) + ", m: " + kit.Itoa(int(v[0]))
				if v[1] > 0 && k%2 == 0 {
					src += ", o1: " + vr.Lit(xs[k])
				}
				src += "}, "
			}
			src += "}"
		} else if i == at+1 {
			src += ", examples: other: {x: 5, m: " + kit.Itoa(int(v[0])) + "}"
		}
		src += "},\n"
	}
	lin, err := kit.Bind(rt, src+"]\nlenses: []\n")
	vr.Assert(err == nil, "a lineage with valid examples binds")
	vr.Assume(err == nil)
	for i, sch := range lin.All() {
		exs := sch.Examples()
		switch i {
		case at:
			vr.Assert(len(exs) == n, "a schema returns as many examples as it declares")
			for k := 0; k < n; k++ {
				in := exs[names[(first+k)%len(names)][0]]
				vr.Assert(in != nil, "an example is found under its name")
				vr.Assume(in != nil)
				vr.Assert(in.Schema() == sch, "an example is an instance of the schema that declares it")
				x, ok := kit.Int(in.Underlying(), "x")
				vr.Assert(ok && x == xs[k], "an example has its declared data")
				o, has := kit.Int(in.Underlying(), "o1")
				vr.Assert(has == (vs[at][1] > 0 && k%2 == 0) && (!has || o == xs[k]), "an example has the optional fields it declares and no others")
				_, err := sch.Validate(in.Underlying())
				vr.Assert(err == nil, "an example is valid data")
			}
		case at + 1:
			vr.Assert(len(exs) == 1 && exs["other"] != nil, "schemas keep their examples apart")
		default:
			vr.Assert(len(exs) == 0, "a schema without examples returns none")
		}
	}
}

// H_Conform: an example that conflicts with its schema is refused with the lineage.
func H_Conform() {
	lim, x := vr.Int("lim", 100, 999), vr.Int("x", 100, 999)
	good := x <= lim
	ex := "{a: " + vr.Lit(x) + ", n: [" + "{b: 3}" + "]}"
	switch vr.Choice("fault", 7) {
	case 1:
		ex, good = "{a: "+vr.Lit(x)+", zz: 3, n: []}", false
	case 2:
		ex, good = "{a: \"s\", n: []}", false
	case 3:
		ex, good = "{a: 1, n: [{b: "+vr.Lit(x)+"}]}", x <= lim
	case 4:
		ex, good = "{a: 1, n: [{b: 2, c: 3}]}", false
	case 5:
		ex = "{a: " + vr.Lit(x) + ", n: [], j: 3}"
	case 6:
		ex, good = "{a: 1, n: [], j: "+vr.Lit(x)+"}", x <= lim
	}
	src := "name: \"test\"\njoinSchema: {j?: int & <=" + vr.Lit(lim) + "}\nschemas: [{version: [0, 0], schema: {a: int & <=" + vr.Lit(lim) + ", n: [...{b: int & <=" + vr.Lit(lim) + "}], d: int | *7}"
	two := vr.Choice("others", 2) == 1
	src += ", examples: {"
	if two {
		src += "fine: {a: 1, n: []}, "
	}
	src += "ex: " + ex + "}}]\nlenses: []\n"
	lin, err := kit.Bind(rt, src)
	vr.Assert((err == nil) == good, "a lineage binds exactly if its examples conform")
	if err != nil {
		vr.Assert(lin == nil && errors.Is(err, terrors.ErrInvalidLineage), "bad examples make a lineage invalid")
		return
	}
	in := lin.First().Examples()["ex"]
	vr.Assert(in != nil, "an example is found under its name")
	vr.Assume(in != nil)
	d, ok := kit.Int(in.Hydrate().Underlying(), "d")
	vr.Assert(ok && d == 7, "an example can be hydrated")
}

// H_Complete: an example is complete data.
func H_Complete() {
	x := vr.Lit(vr.Int("x", 100, 999))
	lin, err := kit.Bind(rt, "name: \"test\"\nschemas: [{version: [0, 0], schema: {a: int, b: int}, examples: ex: {a: "+x+"}}]\nlenses: []\n")
	if err != nil {
		return
	}
	for _, in := range lin.First().Examples() {
		_, err := lin.First().Validate(in.Underlying())
		vr.Assert(err == nil, "an example lacks no required field")
	}
}

// H_Translate: examples translate as other instances do.
func H_Translate() {
	shapes := kit.Shapes(vr.Bound(7, 10))
	vs := kit.Versions(shapes[vr.Choice("shape", len(shapes))])
	at, to := vr.Choice("at", len(vs)), vr.Choice("to", len(vs))
	x, add := vr.Int("x", 100, 199), vr.Int("add", 100, 199)
	var adds []string
	for range kit.LensPairs(vs) {
		adds = append(adds, vr.Lit(add))
	}
	src := kit.LinSrc(vs, adds) + "schemas: ["
	for i, v := range vs {
		if i == at {
			src += "{examples: ex: {x: " + vr.Lit(x) + ", m: " + kit.Itoa(int(v[0])) + "}}, ..."
			break
		}
		src += "_, "
	}
	lin, err := kit.Bind(rt, src+"]\n")
	vr.Assert(err == nil, "a lineage with valid examples binds")
	vr.Assume(err == nil)
	in := lin.All()[at].Examples()["ex"]
	vr.Assert(in != nil, "an example is found under its name")
	vr.Assume(in != nil)
	tr, _, err := in.Translate(vs[to])
	vr.Assert(err == nil, "an example can be translated")
	vr.Assume(err == nil)
	n := 0
	for i := at; i < to; i++ {
		if vs[i][0] != vs[i+1][0] {
			n++
		}
	}
	if to < at {
		n = at - to
	}
	got, ok := kit.Int(tr.Underlying(), "x")
	vr.Assert(ok && got == x+n*add && tr.Schema().Version() == vs[to], "an example translates as its data does")
}
