// C06: Validate accepts exactly the data that conforms to the schema.
package c06

import (
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

// lin1 is a lineage with this schema as versions 0.0, 0.1, 1.0 and 1.1.
func lin1(body string) []thema.Schema {
	src := "name: \"test\"\nschemas: [{version: [0, 0], schema: " + body + "}, {version: [0, 1], schema: " + body + "}, {version: [1, 0], schema: " + body + "}, {version: [1, 1], schema: " + body + "}]\nlenses: []\n"
	lin, err := kit.Bind(rt, src, thema.SkipBuggyChecks())
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	return lin.All()
}

// each compares the answers of all the schemas with the expected one.
func each(schs []thema.Schema, data string, want bool) {
	for _, sch := range schs {
		verdict(sch, data, want)
	}
}

// verdict compares Validate's answer with the expected one.
func verdict(sch thema.Schema, data string, want bool) *thema.Instance {
	dv := kit.Data(rt, data)
	inst, err := sch.Validate(dv)
	if err != nil {
		vr.Reach("rejected")
		vr.Assert(!want, "conforming data is accepted")
		vr.Assert(inst == nil, "no instance with an error")
		vr.Assert(errors.Is(err, terrors.ErrInvalidData), "rejection is ErrInvalidData")
		return nil
	}
	vr.Reach("accepted")
	vr.Assert(want, "only conforming data is accepted")
	vr.Assert(inst != nil, "accepted data yields an instance")
	if inst != nil {
		vr.Assert(inst.Schema() == sch, "the instance carries the schema it was validated against")
		vr.Assert(inst.Underlying() == dv, "the instance carries the data unchanged")
	}
	return inst
}

// an integer anywhere relative to symbolic bounds, at several depths
func H_Bounds() {
	hi := vr.Bound(200, 100000)
	l, u, x := vr.Int("lo", 0, hi), vr.Int("hi", 0, hi), vr.Int("x", 0, hi)
	vr.Assume(l < u)
	c := "int & >=" + vr.Lit(l) + " & <" + vr.Lit(u)
	ok := l <= x && x < u
	xs := vr.Lit(x)
	switch vr.Choice("where", 5) {
	case 0:
		each(lin1("{a: "+c+"}"), "{a: "+xs+"}", ok)
	case 1:
		each(lin1("{n: {m: {a: "+c+"}}, b: string}"), "{n: {m: {a: "+xs+"}}, b: \"s\"}", ok)
	case 2:
		each(lin1("{a?: "+c+", b: string}"), "{a: "+xs+", b: \"s\"}", ok)
	case 3:
		each(lin1("{a: [..."+c+"]}"), "{a: ["+vr.Lit(l)+", "+xs+"]}", ok)
	case 4:
		each(lin1("{a: [string]: "+c+"}"), "{a: {k: "+xs+"}}", ok)
	}
}

// constants, enumerations and excluded values
func H_Values() {
	hi := vr.Bound(50, 100000)
	k, j, x := vr.Int("k", 0, hi), vr.Int("j", 0, hi), vr.Int("x", 0, hi)
	ks, js, xs := vr.Lit(k), vr.Lit(j), vr.Lit(x)
	switch vr.Choice("form", 4) {
	case 0:
		each(lin1("{a: "+ks+"}"), "{a: "+xs+"}", x == k)
	case 1:
		each(lin1("{a: int & !="+ks+"}"), "{a: "+xs+"}", x != k)
	case 2:
		each(lin1("{a: "+ks+" | "+js+"}"), "{a: "+xs+"}", x == k || x == j)
	case 3:
		each(lin1("{a: *"+ks+" | int}"), "{a: "+xs+"}", true)
	}
}

// presence of required, optional and defaulted fields, and closedness
func H_Presence() {
	d := vr.Int("d", 0, vr.Bound(9, 9999))
	sch := lin1("{req: int, opt?: int, def: int | *" + vr.Lit(d) + ", sub: {sreq: int, sopt?: string}, osub?: {q: int}}")
	req, opt, def := vr.Choice("req", 2) == 1, vr.Choice("opt", 2) == 1, vr.Choice("def", 2) == 1
	sub, osub, extra := vr.Choice("sub", 4), vr.Choice("osub", 3), vr.Choice("extra", 4)
	x := vr.Lit(vr.Int("x", 0, 9))
	data := "{"
	want := req
	if req {
		data += "req: " + x + ", "
	}
	if opt {
		data += "opt: " + x + ", "
	}
	if def {
		data += "def: " + x + ", "
	}
	switch sub {
	case 0:
		want = false
	case 1:
		data += "sub: {sreq: " + x + "}, "
	case 2:
		data += "sub: {sopt: \"s\"}, "
		want = false
	case 3:
		data += "sub: {sreq: " + x + ", sopt: \"s\"}, "
	}
	switch osub {
	case 1:
		data += "osub: {q: " + x + "}, "
	case 2:
		data += "osub: {}, "
		want = false
	}
	switch extra {
	case 1:
		data += "extra: " + x + ", "
		want = false
	case 2:
		if sub != 0 {
			data += "sub: extra: " + x + ", "
			want = false
		}
	case 3:
		if osub != 0 {
			data += "osub: extra: \"x\", "
			want = false
		}
	}
	each(sch, data+"}", want)
}

// kinds: each value against each field type
func H_Kinds() {
	x := vr.Int("x", 0, vr.Bound(99, 9999))
	types := []string{"int", "string", "bool", "number", "null", "[...int]", "{z: int}", "int | string", "bytes", "float", "_"}
	vals := []string{vr.Lit(x), "\"s\"", "true", "null", "[" + vr.Lit(x) + "]", "{z: " + vr.Lit(x) + "}", "[\"s\"]", "1.5"}
	ok := [][]int{{0}, {1}, {2}, {0, 7}, {3}, {4}, {5}, {0, 1}, {}, {7}, {0, 1, 2, 3, 4, 5, 6, 7}}
	t, v := vr.Choice("type", len(types)), vr.Choice("val", len(vals))
	want := false
	for _, k := range ok[t] {
		want = want || k == v
	}
	if vr.Choice("opt", 2) == 1 {
		each(lin1("{a?: "+types[t]+", b: int}"), "{b: 1, a: "+vals[v]+"}", want)
		return
	}
	each(lin1("{a: "+types[t]+"}"), "{a: "+vals[v]+"}", want)
}

// the joinSchema constrains every schema
func H_Join() {
	hi := vr.Bound(60, 10000)
	j, u, x := vr.Int("join", 0, hi), vr.Int("u", 0, hi), vr.Int("x", 0, hi)
	vr.Assume(j > 0 && u > 0)
	second := vr.Choice("second", 2) == 1
	src := "name: \"test\"\njoinSchema: {a: int & <" + vr.Lit(j) + ", b?: string}\nschemas: [{version: [0, 0], schema: {a: int & <" + vr.Lit(u) + "}}, {version: [1, 0], schema: {a: int & <" + vr.Lit(u) + ", c: int}}]\nlenses: []\n"
	lin, err := kit.Bind(rt, src)
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	sch, data := lin.First(), "{a: "+vr.Lit(x)+"}"
	if second {
		sch, data = lin.Latest(), "{a: "+vr.Lit(x)+", c: 1}"
	}
	verdict(sch, data, x < j && x < u)
}

// repeated validation gives the same answer and leaves the lineage usable
func H_Repeat() {
	hi := vr.Bound(60, 10000)
	u, x, y := vr.Int("u", 1, hi), vr.Int("x", 0, hi), vr.Int("y", 0, hi)
	sch := lin1("{a: int & <" + vr.Lit(u) + "}")
	each(sch, "{a: "+vr.Lit(x)+"}", x < u)
	each(sch, "{a: "+vr.Lit(y)+"}", y < u)
	each(sch, "{a: "+vr.Lit(x)+"}", x < u)
}
