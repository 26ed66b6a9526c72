// C22: OpenAPI and JSON Schema documents say what the schema says.
package c22

import (
	"cuelang.org/go/cue"
	"cuelang.org/go/cue/ast"
	cueopenapi "cuelang.org/go/encoding/openapi"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/jsonschema"
	"github.com/grafana/thema/encoding/openapi"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

// doc is a document read as OpenAPI 3.0 or, with js, as JSON Schema draft 4.
type doc struct {
	v  cue.Value
	js bool
}

func get(v cue.Value, p string) cue.Value { return v.LookupPath(cue.MakePath(cue.Str(p))) }

func load(f *ast.File, js bool) doc {
	v := rt.Context().BuildFile(f)
	vr.Assert(v.Err() == nil, "the document is well-formed")
	return doc{v, js}
}

func (d doc) component(name string) cue.Value {
	return get(get(get(d.v, "components"), "schemas"), name)
}

func (d doc) components() (names []string) {
	it, err := get(get(d.v, "components"), "schemas").Fields()
	vr.Assert(err == nil, "the document has components")
	for err == nil && it.Next() {
		names = append(names, it.Label())
	}
	return
}

func str(v cue.Value) string {
	s, _ := v.String()
	return s
}

func list(v cue.Value) (out []cue.Value) {
	it, err := v.List()
	for err == nil && it.Next() {
		out = append(out, it.Value())
	}
	return
}

func typeIs(t string, x cue.Value) bool {
	switch x.Kind() {
	case cue.IntKind:
		return t == "integer" || t == "number"
	case cue.FloatKind:
		return t == "number"
	case cue.StringKind:
		return t == "string"
	case cue.BoolKind:
		return t == "boolean"
	case cue.NullKind:
		return t == "null"
	case cue.ListKind:
		return t == "array"
	case cue.StructKind:
		return t == "object"
	}
	return false
}

func equal(x, y cue.Value) bool {
	if x.Kind() != y.Kind() {
		return false
	}
	switch x.Kind() {
	case cue.IntKind:
		a, _ := x.Int64()
		b, _ := y.Int64()
		return a == b
	case cue.StringKind:
		return str(x) == str(y)
	case cue.BoolKind:
		a, _ := x.Bool()
		b, _ := y.Bool()
		return a == b
	case cue.NullKind:
		return true
	}
	return false
}

func isTrue(v cue.Value) bool {
	b, err := v.Bool()
	return err == nil && b
}

const refPrefix = "#/components/schemas/"

// accepts tells whether the schema s of the document accepts x.
func (d doc) accepts(s, x cue.Value) bool {
	if ref := get(s, "$ref"); ref.Exists() {
		r := str(ref)
		if len(r) <= len(refPrefix) || r[:len(refPrefix)] != refPrefix {
			return false
		}
		t := d.component(r[len(refPrefix):])
		return t.Exists() && d.accepts(t, x)
	}
	if !d.js && x.Kind() == cue.NullKind && isTrue(get(s, "nullable")) {
		return true
	}
	if t := get(s, "type"); t.Exists() {
		okt := false
		if t.Kind() == cue.StringKind {
			okt = typeIs(str(t), x)
		} else {
			for _, e := range list(t) {
				okt = okt || typeIs(str(e), x)
			}
		}
		if !okt {
			return false
		}
	}
	if e := get(s, "enum"); e.Exists() {
		oke := false
		for _, c := range list(e) {
			oke = oke || equal(c, x)
		}
		if !oke {
			return false
		}
	}
	if x.Kind() == cue.IntKind {
		n, _ := x.Int64()
		if m := get(s, "minimum"); m.Exists() {
			b, err := m.Int64()
			vr.Assert(err == nil, "bounds are the schema's integers")
			if n < b || n == b && isTrue(get(s, "exclusiveMinimum")) {
				return false
			}
		}
		if m := get(s, "maximum"); m.Exists() {
			b, err := m.Int64()
			vr.Assert(err == nil, "bounds are the schema's integers")
			if n > b || n == b && isTrue(get(s, "exclusiveMaximum")) {
				return false
			}
		}
	}
	if x.Kind() == cue.StructKind {
		for _, r := range list(get(s, "required")) {
			if !get(x, str(r)).Exists() {
				return false
			}
		}
		it, err := x.Fields()
		for err == nil && it.Next() {
			if p := get(get(s, "properties"), it.Label()); p.Exists() {
				if !d.accepts(p, it.Value()) {
					return false
				}
			} else if p := get(s, "additionalProperties"); p.Exists() && p.Kind() == cue.StructKind && !d.accepts(p, it.Value()) {
				return false
			}
		}
	}
	if x.Kind() == cue.ListKind {
		if p := get(s, "items"); p.Exists() {
			for _, e := range list(x) {
				if !d.accepts(p, e) {
					return false
				}
			}
		}
	}
	for _, a := range list(get(s, "allOf")) {
		if !d.accepts(a, x) {
			return false
		}
	}
	count := func(op string) (n int, is bool) {
		v := get(s, op)
		for _, a := range list(v) {
			if d.accepts(a, x) {
				n++
			}
		}
		return n, v.Exists()
	}
	if n, is := count("oneOf"); is && n != 1 {
		return false
	}
	if n, is := count("anyOf"); is && n == 0 {
		return false
	}
	if n := get(s, "not"); n.Exists() && d.accepts(n, x) {
		return false
	}
	return true
}

type consts struct{ lo, hi, x, y string }

func symbols(lo, hi, x, y int) consts {
	return consts{vr.Lit(lo), vr.Lit(hi), vr.Lit(x), vr.Lit(y)}
}

// field returns the k-th kind of field, and whether it has a default.
func field(k int, c consts) (src string, def bool) {
	switch k {
	case 0:
		return "int & >=" + c.lo + " & <=" + c.hi, false
	case 1:
		return "int|string|null", false
	case 2:
		return "\"x\"|\"y\"|null", false
	case 3:
		return "{b: int & <" + c.hi + ", c?: string | null}", false
	case 4:
		return "int & >" + c.lo + " & <" + c.hi, false
	case 5:
		return "int & <" + c.lo + " | int & >" + c.hi, false
	case 6:
		return "*" + c.lo + " | int & <=" + c.hi, true
	case 7:
		return c.lo + " | " + c.hi, false
	case 8:
		return "int | null", false
	case 9:
		return "[...int & <" + c.hi + "] | null", false
	case 10:
		return "null | {b: int & >" + c.lo + "}", false
	case 11:
		return "[...{b: int & <" + c.hi + ", c?: string}]", false
	case 12:
		return "#E | null", false
	case 13:
		return "[...int & >=" + c.lo + "] | string", false
	case 14:
		return "{b: int | null} | {c: string}", false
	case 15:
		return "[..." + c.lo + " | null]", false
	case 16:
		return "number & >=" + c.lo, false
	case 17:
		return "{[string]: int & >" + c.lo + "}", false
	case 18:
		return "bool", false
	case 19:
		return "*\"x\" | \"y\"", true
	case 20:
		return "*" + c.lo + " | int | null", true
	case 21:
		return "null | {[string]: int & >" + c.lo + " | null}", false
	case 22:
		return "*null | string", true
	case 23:
		return "null | {[string]: {b: int | null}}", false
	case 24:
		return "[...[...int & <" + c.hi + "] | null]", false
	default:
		return "string", false
	}
}

const nfields = 26

func data(c consts) []string {
	return []string{"", c.x, "\"x\"", "true", "null", "[" + c.x + "]", "[" + c.x + ", null]", "{b: " + c.x + "}", "{b: " + c.x + ", c: null}", "{b: " + c.x + ", c: \"s\"}",
		"\"z\"", "{b: null}", "{c: \"s\"}", "[{b: " + c.x + "}, {b: " + c.y + ", c: \"t\"}]", "[]", "{}", "[" + c.x + ", " + c.y + "]", "[[" + c.x + "]]"}
}

// place puts the field f into a schema, and its value x (none if empty) into data.
func place(pos int, f string) (schema, join string, in func(x string) string) {
	named := func(x string) string {
		if x == "" {
			return "{}"
		}
		return "{a: " + x + "}"
	}
	switch pos {
	case 0:
		return "{a: " + f + "}", "", named
	case 1:
		return "{a?: " + f + "}", "", named
	case 2:
		return "{n: {a: " + f + "}}", "", func(x string) string { return "{n: " + named(x) + "}" }
	case 3:
		return "{l: [...{a: " + f + "}]}", "", func(x string) string { return "{l: [" + named(x) + "]}" }
	case 4:
		return "{#D: {a: " + f + "}, d: #D, d2?: #D}", "", func(x string) string { return "{d: " + named(x) + "}" }
	case 5:
		return "{m: {[string]: {a: " + f + "}}}", "", func(x string) string { return "{m: {k: " + named(x) + "}}" }
	default:
		return "{t?: string}", "joinSchema: {a: " + f + "}\n", named
	}
}

const npos = 7

// agree generates both documents of the schema and compares them with it on data.
func agree(pos, k, lo, hi int) {
	c := symbols(lo, hi, vr.Int("x", 100, 299), vr.Int("y", 100, 299))
	f, def := field(k, c)
	schema, join, in := place(pos, f)
	if k == 12 {
		vr.Assume(pos != 6)
		schema = "{#E: {b: int}, " + schema[1:]
	}
	lin, err := kit.Bind(rt, "name: \"test\"\n"+join+"schemas: [{version: [0, 0], schema: "+schema+"}]\nlenses: []\n")
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	sch := lin.First()
	of, err := openapi.GenerateSchema(sch, nil)
	vr.Assert(err == nil, "an OpenAPI document is generated")
	vr.Assume(err == nil)
	jf, err := jsonschema.GenerateSchema(sch)
	vr.Assert(err == nil, "a JSON Schema document is generated")
	vr.Assume(err == nil)
	oapi, js := load(of, false), load(jf, true)
	for i, x := range data(c) {
		if (k == 10 || k == 12 || k == 14) && (i == 8 || i == 9 || i == 13) {
			continue // has a field the schema does not: the documents do not forbid those
		}
		d := kit.Data(rt, in(x))
		_, err := sch.Validate(d)
		if i == 0 && (def || pos != 1) {
			// what has a value anyway may be left out, but the documents require it
			vr.Assert(err == nil || !oapi.accepts(oapi.component("test"), d), "the OpenAPI document requires what the schema requires")
			vr.Assert(err == nil || !js.accepts(js.component("test"), d), "the JSON Schema document requires what the schema requires")
			continue
		}
		vr.Assert(oapi.accepts(oapi.component("test"), d) == (err == nil), "the OpenAPI document accepts what the schema accepts")
		vr.Assert(js.accepts(js.component("test"), d) == (err == nil), "the JSON Schema document accepts what the schema accepts")
	}
}

func bounds() (lo, hi int) {
	lo, hi = vr.Int("lo", 100, 299), vr.Int("hi", 100, 299)
	vr.Assume(lo < hi)
	return
}

// H_Kinds: every kind of field, in one place.
func H_Kinds() {
	lo, hi := bounds()
	agree(0, vr.Choice("kind", nfields), lo, hi)
}

// H_Places: every kind of field, everywhere else.
func H_Places() {
	lo, hi := bounds()
	agree(1+vr.Choice("place", npos-1), vr.Choice("kind", nfields), lo, hi)
}

func number(v cue.Value, kw string, want int) {
	n, ok := kit.Int(v, kw)
	vr.Assert(ok && n == want, "the document has the schema's constants")
}

func names(d doc, want ...string) {
	got := d.components()
	same := len(got) == len(want)
	for _, w := range want {
		has := false
		for _, g := range got {
			has = has || g == w
		}
		same = same && has
	}
	vr.Assert(same, "the document has exactly the expected components")
}

// H_Config: what the configuration selects is what the document has.
func H_Config() {
	p, q, r := vr.Int("p", 100, 299), vr.Int("q", 100, 299), vr.Int("r", 100, 299)
	n := vr.Int("n", 100, 199)
	name := "n" + kit.Itoa(n)
	lin, err := kit.Bind(rt, "name: \""+name+"\"\nschemas: [{version: [0, 0], schema: {n: {a: {b: int & <"+vr.Lit(p)+"}}, #D: {x: int & <"+vr.Lit(q)+", e?: #E}, #E: {y: int & <"+vr.Lit(r)+"}, o?: {p: int & >"+vr.Lit(p)+"}, a?: string}}]\nlenses: []\n")
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	cfg := &openapi.Config{}
	title := name
	switch vr.Choice("config", 8) {
	case 0:
	case 1:
		title = "Foo"
		cfg.RootName = title
	case 2:
		title = "n"
		cfg.Subpath = cue.ParsePath("n")
	case 3:
		title = "a"
		cfg.Subpath = cue.ParsePath("n.a")
	case 4:
		title = "Bar"
		cfg.Subpath, cfg.RootName = cue.ParsePath("n.a"), title
	case 5:
		cfg.Group = true
	case 6:
		cfg.Subpath = cue.ParsePath("n.zz")
		title = ""
	case 7:
		cfg.Subpath = cue.ParsePath("zz")
		title = ""
	}
	f, err := openapi.GenerateSchema(lin.First(), cfg)
	if title == "" {
		vr.Assert(err != nil && f == nil, "a subpath the schema does not have is an error")
		return
	}
	vr.Assert(err == nil, "an OpenAPI document is generated")
	vr.Assume(err == nil)
	d := load(f, false)
	vr.Assert(str(get(get(d.v, "info"), "title")) == title && str(get(get(d.v, "info"), "version")) == "0.0", "the header has the root's name and the schema's version")
	root := d.component(title)
	switch {
	case cfg.Group:
		names(d, "n", "D", "E", "o", "a")
		number(get(get(get(get(d.component("n"), "properties"), "a"), "properties"), "b"), "maximum", p)
		number(get(get(d.component("o"), "properties"), "p"), "minimum", p)
	case len(cfg.Subpath.Selectors()) == 0:
		names(d, title, "D", "E")
		number(get(get(get(get(get(get(root, "properties"), "n"), "properties"), "a"), "properties"), "b"), "maximum", p)
		number(get(get(get(get(root, "properties"), "o"), "properties"), "p"), "minimum", p)
	case len(cfg.Subpath.Selectors()) == 1:
		names(d, title)
		number(get(get(get(get(root, "properties"), "a"), "properties"), "b"), "maximum", p)
	default:
		names(d, title)
		number(get(get(root, "properties"), "b"), "maximum", p)
	}
	if len(cfg.Subpath.Selectors()) == 0 {
		number(get(get(d.component("D"), "properties"), "x"), "maximum", q)
		number(get(get(d.component("E"), "properties"), "y"), "maximum", r)
		vr.Assert(str(get(get(get(d.component("D"), "properties"), "e"), "$ref")) == refPrefix+"E", "references lead to the definition's component")
	}
}

// H_Versions: each version's documents are about that version.
func H_Versions() {
	shapes := kit.Shapes(7)
	vs := kit.Versions(shapes[vr.Choice("shape", len(shapes))])
	src := "name: \"test\"\nschemas: ["
	var lim []int
	for i, v := range vs {
		lim = append(lim, vr.Int("lim"+kit.Itoa(i), 100, 299))
		src += "{version: " + kit.Ver(v) + ", schema: {m: " + kit.Itoa(int(v[0])) + ", c: int"
		for j := i - int(v[1]); j <= i; j++ {
			src += ", o" + kit.Itoa(j) + "?: int & <" + vr.Lit(lim[j])
		}
		src += "}}, "
	}
	lin, err := kit.Bind(rt, src+"]\nlenses: []\n")
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	at := vr.Choice("at", len(vs))
	sch := thema.SchemaP(lin, vs[at])
	of, err := openapi.GenerateSchema(sch, nil)
	vr.Assert(err == nil, "an OpenAPI document is generated")
	jf, err2 := jsonschema.GenerateSchema(sch)
	vr.Assert(err2 == nil, "a JSON Schema document is generated")
	vr.Assume(err == nil && err2 == nil)
	for i, d := range []doc{load(of, false), load(jf, true)} {
		vr.Assert(str(get(get(d.v, "info"), "version")) == kit.Itoa(int(vs[at][0]))+"."+kit.Itoa(int(vs[at][1])), "the header has the schema's version")
		vr.Assert(get(d.component("test"), "$schema").Exists() == (i == 1), "JSON Schema documents say so")
		for j := range vs {
			p := get(get(d.component("test"), "properties"), "o"+kit.Itoa(j))
			has := j <= at && vs[j][0] == vs[at][0]
			vr.Assert(p.Exists() == has, "the document has the version's fields")
			if has {
				number(p, "maximum", lim[j])
			}
		}
	}
}

// H_Join: a field constrained by both the schema and the joinSchema.
func H_Join() {
	lo, hi := bounds()
	x := vr.Int("x", 100, 299)
	lin, err := kit.Bind(rt, "name: \"test\"\njoinSchema: {a: int & <="+vr.Lit(hi)+"}\nschemas: [{version: [0, 0], schema: {a: int & >="+vr.Lit(lo)+"}}]\nlenses: []\n")
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	sch := lin.First()
	of, err := openapi.GenerateSchema(sch, nil)
	vr.Assert(err == nil, "an OpenAPI document is generated")
	vr.Assume(err == nil)
	d := kit.Data(rt, "{a: "+vr.Lit(x)+"}")
	_, err = sch.Validate(d)
	oapi := load(of, false)
	if err == nil {
		vr.Assert(oapi.accepts(oapi.component("test"), d), "the OpenAPI document accepts what the schema accepts")
	} else if x < lo {
		vr.Assert(!oapi.accepts(oapi.component("test"), d), "the OpenAPI document refuses what the schema itself refuses")
	} else {
		vr.Assert(!oapi.accepts(oapi.component("test"), d), "the OpenAPI document refuses what only the joinSchema refuses")
	}
}

// nested definitions and references to them, in every configuration that keeps the whole schema
func H_Refs() {
	lim := vr.Int("lim", 100, 299)
	l := "int & <" + vr.Lit(lim)
	lin, err := kit.Bind(rt, "name: \"test\"\nschemas: [{version: [0, 0], schema: {n: #D, #D: {x: "+l+", y?: #E, #F: {q: "+l+"}, f: #F}, #E: {z: "+l+"}, s: {#G: {h: "+l+"}, g: #G, t?: {u: #G}}, e: #E | null}}]\nlenses: []\n")
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	sch := lin.First()
	cfg := &openapi.Config{}
	var f *ast.File
	js := false
	switch vr.Choice("config", 5) {
	case 0:
	case 1:
		cfg.SplitSchema = true
	case 2:
		cfg.Config = &cueopenapi.Config{ExpandReferences: true}
	case 3:
		cfg.Config = &cueopenapi.Config{SelfContained: true}
	case 4:
		js = true
	}
	if js {
		f, err = jsonschema.GenerateSchema(sch)
	} else {
		f, err = openapi.GenerateSchema(sch, cfg)
	}
	vr.Assert(err == nil, "a document is generated")
	vr.Assume(err == nil)
	d := load(f, js)
	// one value of the data is symbolic, missing or of another type, in each of the places
	parts := []string{"1", "{z: 1}", "{q: 1}", "{h: 1}", "{u: {h: 1}}", "{z: 1}"}
	v := vr.Lit(vr.Int("v", 100, 299))
	at := vr.Choice("at", len(parts))
	wrong := [][]string{
		{v, `"x"`, "null"},
		{"{z: " + v + "}", "{}", "1", "null"},
		{"{q: " + v + "}", "{}", "1", "null"},
		{"{h: " + v + "}", "{}", "1", "null"},
		{"{u: {h: " + v + "}}", "{}", "{u: {}}", "1"},
		{"{z: " + v + "}", "{}", "1", "null"},
	}[at]
	for _, w := range wrong {
		p := append([]string{}, parts...)
		p[at] = w
		x := kit.Data(rt, "{n: {x: "+p[0]+", y: "+p[1]+", f: "+p[2]+"}, s: {g: "+p[3]+", t: "+p[4]+"}, e: "+p[5]+"}")
		_, err := sch.Validate(x)
		vr.Assert(d.accepts(d.component("test"), x) == (err == nil), "the document accepts what the schema accepts")
	}
	_, err = sch.Validate(kit.Data(rt, "{n: {x: 1, f: {q: 1}}, s: {g: {h: 1}}, e: null}"))
	vr.Assert(err == nil && d.accepts(d.component("test"), kit.Data(rt, "{n: {x: 1, f: {q: 1}}, s: {g: {h: 1}}, e: null}")), "optional fields may be left out, and nulls given")
	vr.Reach("end")
}
