// C14: IsAppendOnly.
package c14

import (
	"github.com/grafana/thema"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

func bind(bodies []string) thema.Lineage {
	var vs []thema.SyntacticVersion
	for i := range bodies {
		vs = append(vs, thema.SV(uint(i), 0))
	}
	return bindV(vs, bodies, "")
}

func bindV(vs []thema.SyntacticVersion, bodies []string, join string) thema.Lineage {
	src := "name: \"test\"\n" + join + "schemas: ["
	for i, b := range bodies {
		src += "{version: " + kit.Ver(vs[i]) + ", schema: " + b + "},\n"
	}
	lin, err := kit.Bind(rt, src+"]\nlenses: []\n", thema.SkipBuggyChecks())
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	return lin
}

// lineages whose schemas hold arbitrary bounds: append-only exactly when every
// old schema is still there, unchanged
func H_Bounds() {
	hi := vr.Bound(99, 9999)
	n, m := 1+vr.Choice("old", 3), 1+vr.Choice("new", 3)
	form := vr.Choice("form", 4)
	body := func(s string) string {
		switch form {
		case 1:
			return "{f: " + s + "}"
		case 2:
			return "{n: {f?: int & <" + s + "}}"
		case 3:
			return "{f: *" + s + " | int, g: string}"
		}
		return "{f: int & >=" + s + ", g?: string}"
	}
	var ov, nv []int
	var ob, nb []string
	for i := 0; i < n; i++ {
		ov = append(ov, vr.Int("o"+kit.Itoa(i), 0, hi))
		ob = append(ob, body(vr.Lit(ov[i])))
	}
	for i := 0; i < m; i++ {
		nv = append(nv, vr.Int("n"+kit.Itoa(i), 0, hi))
		nb = append(nb, body(vr.Lit(nv[i])))
	}
	err := thema.IsAppendOnly(bind(ob), bind(nb))
	want := n <= m
	for i := 0; i < n && i < m; i++ {
		want = want && ov[i] == nv[i]
	}
	if err == nil {
		vr.Reach("append-only")
		vr.Assert(want, "a changed or removed schema is reported")
	} else {
		vr.Reach("changed")
		vr.Assert(!want, "a lineage that only adds schemas is append-only")
	}
}

// lineages of any shape: schemas also keep their version
func H_Shapes() {
	hi := vr.Bound(9, 9999)
	shapes := kit.Shapes(vr.Bound(10, 15))
	o, n := vr.Choice("old", len(shapes)), vr.Choice("new", len(shapes))
	ovs, nvs := kit.Versions(shapes[o]), kit.Versions(shapes[n])
	// one schema, anywhere, may differ
	at := vr.Choice("at", len(nvs))
	x, y := vr.Int("x", 0, hi), vr.Int("y", 0, hi)
	var ob, nb []string
	for i := range ovs {
		ob = append(ob, "{f: int & >="+vr.Lit(x)+", g"+kit.Itoa(i)+"?: string}")
	}
	for i := range nvs {
		z := x
		if i == at {
			z = y
		}
		nb = append(nb, "{f: int & >="+vr.Lit(z)+", g"+kit.Itoa(i)+"?: string}")
	}
	err := thema.IsAppendOnly(bindV(ovs, ob, ""), bindV(nvs, nb, ""))
	want := len(ovs) <= len(nvs) && (at >= len(ovs) || x == y)
	for i := 0; i < len(ovs) && i < len(nvs); i++ {
		want = want && ovs[i] == nvs[i]
	}
	if err == nil {
		vr.Reach("append-only")
		vr.Assert(want, "a changed, removed or renumbered schema is reported")
	} else {
		vr.Reach("changed")
		vr.Assert(!want, "a lineage that only adds schemas is append-only")
	}
}

// a joinSchema is part of every schema
func H_Join() {
	hi := vr.Bound(99, 9999)
	x, y := vr.Int("x", 0, hi), vr.Int("y", 0, hi)
	form := func(k, v int) string {
		switch k {
		case 1:
			return "joinSchema: {a: int & >=" + vr.Lit(v) + "}\n"
		case 2:
			return "joinSchema: {b: " + vr.Lit(v) + "}\n"
		case 3:
			return "joinSchema: {n: {c?: int & >" + vr.Lit(v) + "}}\n"
		}
		return ""
	}
	o, n := vr.Choice("old", 4), vr.Choice("new", 4)
	vs := []thema.SyntacticVersion{{0, 0}, {0, 1}}
	b := []string{"{a: int, n: {d: int}}", "{a: int, n: {d: int}, e?: int}"}
	err := thema.IsAppendOnly(bindV(vs, b, form(o, x)), bindV(vs, b, form(n, y)))
	if err == nil {
		vr.Reach("append-only")
		vr.Assert(o == n && (o == 0 || x == y), "a changed joinSchema is reported")
	} else {
		vr.Reach("changed")
		vr.Assert(!(o == n && (o == 0 || x == y)), "a lineage with the same joinSchema is append-only")
	}
}

// what CUE's subsumption does not compare
func H_Unseen() {
	pairs := [][2]string{{"{a: [...int]}", "{a: [...string]}"}, {"{a: int}", "{a: int, ...}"}}
	c := vr.Choice("pair", len(pairs))
	o, n := vr.Choice("old", 2), vr.Choice("new", 2)
	err := thema.IsAppendOnly(bind([]string{pairs[c][o]}), bind([]string{pairs[c][n]}))
	if o == n {
		vr.Assert(err == nil, "an unchanged schema is append-only")
	} else if c == 0 {
		vr.Assert(err != nil, "a change of the elements of an open list is reported")
	} else {
		vr.Assert(err != nil, "opening or closing a schema is reported")
	}
	vr.Reach("end")
}

var forms = []string{"{a: int}", "{a?: int}", "{a: int, b: int}", "{a: int, b?: int}", "{a: string}", "{a: {c: int}}", "{a: {c?: int}}", "{a: [...int]}", "{a: [int]}", "{a: int | *3}", "{a: int | *4}", "{}"}

// every pair of forms, as first, middle or last schema
func H_Forms() {
	o, n, pos := vr.Choice("old", len(forms)), vr.Choice("new", len(forms)), vr.Choice("pos", 3)
	x := vr.Lit(vr.Int("x", 0, 9))
	ob, nb := []string{"{z: " + x + "}", "{y: " + x + "}"}, []string{"{z: " + x + "}", "{y: " + x + "}"}
	ins := func(s []string, f string) []string {
		return append(append(append([]string{}, s[:pos]...), f), s[pos:]...)
	}
	ob, nb = ins(ob, forms[o]), ins(nb, forms[n])
	if vr.Choice("more", vr.Bound(1, 2)) == 1 {
		nb = append(nb, "{last: int}")
	}
	err := thema.IsAppendOnly(bind(ob), bind(nb))
	if def := o >= 9 && o <= 10; o != n && (def && n == 0 || o == 0 && n >= 9 && n <= 10) {
		vr.Assert(err != nil, "adding or removing a field's default is reported as a change")
		return
	}
	vr.Assert((err == nil) == (o == n), "append-only exactly when every old schema is unchanged")
	if err == nil {
		vr.Reach("append-only")
	} else {
		vr.Reach("changed")
	}
}
