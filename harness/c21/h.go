// C21: what binds as a lineage, in whatever form it is written, and the error class
// of what does not.
package c21

import (
	"cuelang.org/go/cue"
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

const (
	ok = iota
	invalid
	notLineage
	notExist
	other
)

func class(lin thema.Lineage, err error) int {
	if (lin == nil) != (err != nil) {
		return -1
	}
	switch {
	case err == nil:
		return ok
	case errors.Is(err, terrors.ErrValueNotExist):
		return notExist
	case errors.Is(err, terrors.ErrValueNotALineage):
		return notLineage
	case errors.Is(err, terrors.ErrInvalidLineage):
		return invalid
	}
	return other
}

// at compiles src with thema's definitions in scope and returns the value at lin.
func at(src string) cue.Value {
	return rt.Context().CompileString(src, cue.Filename("lineage.cue"), cue.Scope(rt.Underlying())).LookupPath(cue.ParsePath("lin"))
}

// form writes the lineage made of the parts a and b in one of several ways; unified
// tells whether it mentions #Lineage.
func form(f int, a, b string) (v cue.Value, unified bool) { return form3(f, a, b, "") }

// nforms counts the ways to write a lineage made of two parts, nforms3 of three.
const nforms, nforms3 = 8, 14

func form3(f int, a, b, c string) (v cue.Value, unified bool) {
	switch f {
	case 8:
		return at("lin: {" + a + "\n} & #Lineage & {" + b + "\n} & {" + c + "\n}"), true
	case 9:
		return at("lin: {" + c + "\n} & {" + b + "\n} & {" + a + "\n} & #Lineage"), true
	case 10:
		return at("lin: {" + a + "\n} & {" + c + "\n} & {" + b + "\n}"), false
	case 11:
		return at("p: {" + a + "\n}\nq: {" + c + "\n}\nlin: p & #Lineage & {" + b + "\n} & q"), true
	case 12:
		return at("p: #Lineage & {" + a + "\n}\nq: #Lineage & {" + b + "\n}\nlin: p & q & {" + c + "\n}"), true
	case 13:
		return at("lin: {#Lineage\n" + a + "\n" + b + "\n" + c + "\n}"), true
	}
	b += "\n" + c
	switch f {
	case 0:
		return rt.Context().CompileString(a+"\n"+b+"\n", cue.Filename("lineage.cue")), false
	case 1:
		return at("lin: #Lineage & {" + a + "\n" + b + "\n}"), true
	case 2:
		return at("lin: {" + a + "\n" + b + "\n}"), false
	case 3:
		return at("lin: {" + a + "\n} & #Lineage & {" + b + "\n}"), true
	case 4:
		return at("lin: {" + a + "\n} & {" + b + "\n}"), false
	case 5:
		return at("lin: #Lineage & #Lineage & {" + a + "\n" + b + "\n}"), true
	case 6:
		return at("lin: #Lineage\nlin: {" + a + "\n}\nlin: {" + b + "\n}"), true
	default:
		return at("base: #Lineage & {" + a + "\n" + b + "\n}\nlin: base"), true
	}
}

// H_Forms: a lineage behaves the same in every form.
func H_Forms() {
	n := vr.Int("n", 100, 199)
	lo := vr.Int("lo", 100, 299)
	hi := vr.Int("hi", 100, 299)
	l2 := vr.Int("l2", 100, 299)
	x := vr.Int("x", 100, 299)
	v, _ := form3(vr.Choice("form", nforms3),
		"name: \"n"+kit.Itoa(n)+"\"",
		"schemas: [{version: [0, 0], schema: {a: int & >="+vr.Lit(lo)+" & <="+vr.Lit(hi)+"}}, {version: [1, 0], schema: {a: int & >="+vr.Lit(l2)+" & <="+vr.Lit(hi)+", b: string}}]",
		"lenses: [{to: [0, 0], from: [1, 0], input: _, result: {a: input.a}}, {to: [1, 0], from: [0, 0], input: _, result: {a: input.a, b: \"b\"}}]")
	lin, err := thema.BindLineage(v, rt)
	want := ok
	if lo > hi || l2 > hi {
		want = invalid
	}
	vr.Observe("class", class(lin, err))
	vr.Assert(class(lin, err) == want, "a lineage binds exactly when its schemas have no conflict")
	if err != nil {
		return
	}
	vr.Assert(lin.Name() == "n"+kit.Itoa(n), "the lineage has its declared name")
	vr.Assert(lin.Runtime() == rt, "the lineage belongs to the runtime it was bound with")
	all := lin.All()
	vr.Assert(len(all) == 2 && all[0].Version() == thema.SV(0, 0) && all[1].Version() == thema.SV(1, 0), "the lineage has its declared schemas")
	_, err = lin.First().Validate(kit.Data(rt, "{a: "+vr.Lit(x)+"}"))
	vr.Assert((err == nil) == (lo <= x && x <= hi), "the first schema accepts what was declared")
	_, err = lin.Latest().Validate(kit.Data(rt, "{a: "+vr.Lit(x)+", b: \"c\"}"))
	vr.Assert((err == nil) == (l2 <= x && x <= hi), "the second schema accepts what was declared")
}

// H_Rebind: the value of a bound lineage is itself a lineage, the same one.
func H_Rebind() {
	n := vr.Int("n", 100, 199)
	hi := vr.Int("hi", 100, 299)
	x := vr.Int("x", 100, 299)
	v, _ := form3(vr.Choice("form", nforms3), "name: \"n"+kit.Itoa(n)+"\"", "schemas: [{version: [0, 0], schema: {a: int & <="+vr.Lit(hi)+"}}]", "lenses: []")
	lin, err := thema.BindLineage(v, rt)
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	again, err := thema.BindLineage(lin.Underlying(), rt)
	vr.Assert(err == nil, "the value of a bound lineage binds")
	vr.Assume(err == nil)
	vr.Assert(again.Name() == lin.Name() && len(again.All()) == 1, "a rebound lineage has the same name and schemas")
	_, err = again.First().Validate(kit.Data(rt, "{a: "+vr.Lit(x)+"}"))
	vr.Assert((err == nil) == (x <= hi), "a rebound lineage accepts what was declared")
}

const schemasOK = "schemas: [{version: [0, 0], schema: {a: int}}]"

// shape tries each kind of name with each kind of schemas and extra.
func shape(forms []int) {
	names := []struct {
		src string
		cls int
	}{
		{"name: \"test\"", ok}, {"", notLineage}, {"name: string", invalid}, {"name: " + vr.Lit(vr.Int("n", 0, 99)), invalid}, {"name: {}", invalid},
	}
	i, j := vr.Int("i", 0, 9), vr.Int("j", 0, 9)
	ver := other // judged elsewhere: the version order
	if i == 0 && j == 0 {
		ver = ok
	}
	p, q := vr.Int("p", 100, 199), vr.Int("q", 100, 199)
	pq := ok
	if p != q {
		pq = invalid
	}
	schemas := []struct {
		src string
		cls int
	}{
		{schemasOK, ok}, {"", notLineage},
		{"schemas: []", invalid}, {"schemas: [...]", invalid}, {"schemas: " + vr.Lit(i), invalid}, {"schemas: {}", invalid}, {"schemas: [" + vr.Lit(i) + "]", invalid},
		{"schemas: [{version: [" + vr.Lit(i) + "], schema: {}}]", invalid},
		{"schemas: [{version: [" + vr.Lit(i) + ", 0, 0], schema: {}}]", invalid},
		{"schemas: [{version: [" + vr.Lit(i) + ", -" + vr.Lit(j+1) + "], schema: {}}]", invalid},
		{"schemas: [{version: [" + vr.Lit(i) + ", \"0\"], schema: {}}]", invalid},
		{"schemas: [{version: [" + vr.Lit(i) + ", " + vr.Lit(j) + "], schema: {a: int}}]", ver},
		{"schemas: [{version: [0, 0], schema: {a: " + vr.Lit(p) + " & " + vr.Lit(q) + "}}]", pq},
		{"schemas: [{version: [0, 0], schema: {a: {b: [" + vr.Lit(p) + " & " + vr.Lit(q) + "]}}}]", pq},
		{"schemas: [{version: [0, 0], schema: {a: int}, zz: " + vr.Lit(p) + "}]", invalid},
	}
	extras := []struct {
		src string
		cls int
	}{
		{"", ok}, {"zz: 3", invalid}, {"lenses: 3", invalid}, {"lenses: [3]", invalid},
		{"lenses: [{to: [0], from: [0, 0], input: _, result: {}}]", invalid},
		{"lenses: []", ok}, {"joinSchema: {a: int}", ok}, {"joinSchema: {zz: int}", ok},
	}
	a, b, c := vr.Choice("name", len(names)), 0, 0
	if a == 0 {
		b = vr.Choice("schemas", len(schemas))
		if b == 0 {
			c = vr.Choice("extra", len(extras))
		}
	} else {
		b = vr.Choice("schemas2", 2)
	}
	v, unified := form(forms[vr.Choice("form", len(forms))], names[a].src, schemas[b].src+"\n"+extras[c].src)
	lin, err := thema.BindLineage(v, rt)
	want := names[a].cls
	if want == ok {
		want = schemas[b].cls
	}
	if want == ok {
		want = extras[c].cls
	}
	got := class(lin, err)
	vr.Observe("class", got)
	vr.Assert(got >= 0, "a lineage is returned exactly when there is no error")
	switch {
	case want == ok:
		vr.Assert(got == ok, "a well-formed lineage binds")
	case want == other:
		vr.Assert(got != ok, "a lineage not starting at 0.0 does not bind")
	case want == notLineage && unified:
		// with #Lineage's own fields in place, only their being left open shows
		vr.Assert(got == invalid || got == notLineage, "a value without name or schemas is refused as no lineage or an invalid one")
	case want == notLineage:
		vr.Assert(got == notLineage || a > 1, "a value without name or schemas is refused as no lineage")
		vr.Assert(got == notLineage || got == invalid, "a value with an unusable name is refused")
	default:
		vr.Assert(got == invalid || got == notLineage && schemas[b].src == "", "a malformed lineage is refused as invalid")
	}
}

func H_Shape() { shape([]int{0, 1, 3, 2, 4, 5, 6, 7}[:vr.Bound(3, 8)]) }

// H_Absent: values that are not there, and values that are not structs.
func H_Absent() {
	n := vr.Int("n", 100, 999)
	var v cue.Value
	want := notLineage
	switch vr.Choice("what", 9) {
	case 0:
		want = notExist
	case 1:
		v, want = rt.Context().CompileString("a: "+vr.Lit(n)).LookupPath(cue.ParsePath("foo.bar")), notExist
	case 2:
		v, want = rt.Context().CompileString("a: "+vr.Lit(n)).LookupPath(cue.ParsePath("foo")), notExist
	case 3:
		v = rt.Context().CompileString(vr.Lit(n))
	case 4:
		v = rt.Context().CompileString("\"x" + kit.Itoa(n) + "\"")
	case 5:
		v = rt.Context().CompileString("[" + vr.Lit(n) + "]")
	case 6:
		v = rt.Context().CompileString("{a: " + vr.Lit(n) + "}")
	case 7:
		v = rt.Context().CompileString("null")
	case 8:
		v = rt.Context().CompileString("lin: {name: \"test\", " + schemasOK + "}, n: " + vr.Lit(n)).LookupPath(cue.ParsePath("lin"))
		want = ok
	}
	lin, err := thema.BindLineage(v, rt)
	vr.Observe("class", class(lin, err))
	vr.Assert(class(lin, err) == want, "a value that is absent or no lineage at all is refused as such")
}
