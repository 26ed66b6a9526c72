// C12: Hydrate fills in defaults, Dehydrate removes them.
package c12

import (
	"cuelang.org/go/cue"
	"github.com/grafana/thema"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

func inst(body, data string) *thema.Instance {
	lin, err := kit.Bind(rt, "name: \"test\"\nschemas: [{version: [0, 0], schema: "+body+"}]\nlenses: []\n")
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	in, err := lin.First().Validate(kit.Data(rt, data))
	vr.Assert(err == nil, "the data is valid")
	vr.Assume(err == nil)
	return in
}

type field struct {
	path string
	has  bool
	val  int
}

func expect(v cue.Value, fs []field, what string) {
	for _, f := range fs {
		got, ok := kit.Int(v, f.path)
		if f.has {
			vr.Assert(ok && got == f.val, what+": a field that should be present has its value")
		} else {
			vr.Assert(!v.LookupPath(cue.ParsePath(f.path)).Exists(), what+": a field that should be absent is absent")
		}
	}
}

// a flat and a nested field with defaults, an optional and a required one
func H_Fields() {
	k, j := vr.Int("k", 0, 9), vr.Int("j", 0, 9)
	body := "{r: int, d: int | *" + vr.Lit(k) + ", n: {e: int | *" + vr.Lit(j) + ", f: int}, o?: int}"
	r, d, e, f, o := vr.Int("r", 0, 9), vr.Int("d", 0, 9), vr.Int("e", 0, 9), vr.Int("f", 0, 9), vr.Int("o", 0, 9)
	hd, he, ho := vr.Choice("hd", 2) == 1, vr.Choice("he", 2) == 1, vr.Choice("ho", 2) == 1
	data := "{r: " + vr.Lit(r)
	if hd {
		data += ", d: " + vr.Lit(d)
	} else {
		d = k
	}
	data += ", n: {f: " + vr.Lit(f)
	if he {
		data += ", e: " + vr.Lit(e)
	} else {
		e = j
	}
	data += "}"
	if ho {
		data += ", o: " + vr.Lit(o)
	}
	in := inst(body, data+"}")
	orig := []field{{"r", true, r}, {"d", hd, d}, {"n.e", he, e}, {"n.f", true, f}, {"o", ho, o}}
	full := []field{{"r", true, r}, {"d", true, d}, {"n.e", true, e}, {"n.f", true, f}, {"o", ho, o}}
	bare := []field{{"r", true, r}, {"d", hd && d != k, d}, {"n.e", he && e != j, e}, {"n.f", true, f}, {"o", ho, o}}
	h := in.Hydrate()
	expect(h.Underlying(), full, "hydrate")
	dh := in.Dehydrate()
	expect(dh.Underlying(), bare, "dehydrate")
	expect(in.Underlying(), orig, "original")
	expect(dh.Hydrate().Underlying(), full, "hydrate after dehydrate")
	expect(h.Dehydrate().Underlying(), bare, "dehydrate after hydrate")
	vr.Assert(h.Schema() == in.Schema() && dh.Schema() == in.Schema(), "the schema is kept")
	_, err := in.Schema().Validate(h.Underlying())
	vr.Assert(err == nil, "hydrated data is valid")
	_, err = in.Schema().Validate(dh.Underlying())
	vr.Assert(err == nil, "dehydrated data is valid")
	vr.Reach("end")
}

// lists of structs with defaults
func H_Lists() {
	k := vr.Int("k", 0, 9)
	a, b := vr.Int("a", 0, 9), vr.Int("b", 0, 9)
	body := "{l: [...{p: int, q: int | *" + vr.Lit(k) + "}]}"
	n := vr.Choice("n", 3)
	hq := vr.Choice("hq", 2) == 1
	data := "{l: ["
	if n > 0 {
		data += "{p: " + vr.Lit(a)
		if hq {
			data += ", q: " + vr.Lit(b)
		}
		data += "},"
	}
	if n > 1 {
		data += "{p: " + vr.Lit(b) + ", q: " + vr.Lit(a) + "},"
	}
	in := inst(body, data+"]}")
	var full, bare []field
	if n > 0 {
		q := k
		if hq {
			q = b
		}
		full = append(full, field{"l[0].p", true, a}, field{"l[0].q", true, q})
		bare = append(bare, field{"l[0].p", true, a}, field{"l[0].q", hq && b != k, b})
	}
	if n > 1 {
		full = append(full, field{"l[1].p", true, b}, field{"l[1].q", true, a})
		bare = append(bare, field{"l[1].p", true, b}, field{"l[1].q", a != k, a})
	}
	h, dh := in.Hydrate(), in.Dehydrate()
	hl, _ := h.Underlying().LookupPath(cue.ParsePath("l")).Len().Int64()
	vr.Assert(int(hl) == n, "hydrate: lists keep their length")
	expect(h.Underlying(), full, "hydrate list")
	expect(dh.Underlying(), bare, "dehydrate list")
	vr.Reach("end")
}

// A value of the reference model: an int, a literal, a list or a struct.
type val struct {
	kind byte // i, s, l, m
	n    int
	s    string // literal source, kind s
	es   []val
	fs   []fld
}

type fld struct {
	name string
	v    val
}

func num(n int) val      { return val{kind: 'i', n: n} }
func lit(s string) val   { return val{kind: 's', s: s} }
func list(es ...val) val { return val{kind: 'l', es: es} }
func obj(fs ...fld) val  { return val{kind: 'm', fs: fs} }
func (v val) src() string {
	switch v.kind {
	case 'i':
		return vr.Lit(v.n)
	case 's':
		return v.s
	case 'l':
		s := "["
		for _, e := range v.es {
			s += e.src() + ", "
		}
		return s + "]"
	}
	s := "{"
	for _, f := range v.fs {
		s += f.name + ": " + f.v.src() + ", "
	}
	return s + "}"
}

// same reports whether the CUE value is this one, with no other field.
func (v val) same(c cue.Value) bool {
	switch v.kind {
	case 'i':
		n, err := c.Int64()
		return err == nil && int(n) == v.n
	case 's':
		if d, ok := c.Default(); ok {
			c = d
		}
		switch v.s {
		case "true", "false":
			b, err := c.Bool()
			return err == nil && b == (v.s == "true")
		case "null":
			return c.Null() == nil
		}
		s, err := c.String()
		return err == nil && "\""+s+"\"" == v.s
	case 'l':
		if d, ok := c.Default(); ok {
			c = d
		}
		it, err := c.List()
		if err != nil {
			return false
		}
		i := 0
		for it.Next() {
			if i >= len(v.es) || !v.es[i].same(it.Value()) {
				return false
			}
			i++
		}
		return i == len(v.es)
	}
	it, err := c.Fields()
	if err != nil {
		return false
	}
	n := 0
	for it.Next() {
		n++
	}
	if n != len(v.fs) {
		return false
	}
	for _, f := range v.fs {
		if !f.v.same(c.LookupPath(cue.ParsePath(f.name))) {
			return false
		}
	}
	return true
}

// check states what the instance must hydrate and dehydrate to.
func check(body string, orig, full, bare val) {
	in := inst(body, orig.src())
	h, dh := in.Hydrate(), in.Dehydrate()
	vr.Assert(full.same(h.Underlying()), "hydrating adds the defaults and nothing else")
	vr.Assert(bare.same(dh.Underlying()), "dehydrating removes the values equal to their default and nothing else")
	vr.Assert(orig.same(in.Underlying()), "the original is unchanged")
	vr.Assert(full.same(dh.Hydrate().Underlying()), "hydrating restores what dehydrating removed")
	vr.Assert(bare.same(h.Dehydrate().Underlying()), "dehydrating removes what hydrating added")
	_, err := in.Schema().Validate(h.Underlying())
	vr.Assert(err == nil, "the hydrated instance is valid")
	_, err = in.Schema().Validate(dh.Underlying())
	vr.Assert(err == nil, "the dehydrated instance is valid")
	vr.Reach("end")
}

// a field of a kind with a default, present with the default or another value,
// or absent, at the top, in a nested struct, an optional struct, an open struct
// or a list
func H_Kinds() {
	k, x := vr.Int("k", 0, 99), vr.Int("x", 0, 99)
	var typ string
	var def, other val
	switch vr.Choice("type", 8) {
	case 0:
		typ, def, other = "int | *"+vr.Lit(k), num(k), num(x)
		vr.Assume(x != k)
	case 1:
		typ, def, other = "string | *\"a\"", lit("\"a\""), lit("\"aa\"")
	case 2:
		typ, def, other = "*\"a\" | \"b\" | \"c\"", lit("\"a\""), lit("\"c\"")
	case 3:
		typ, def, other = "bool | *true", lit("true"), lit("false")
	case 4:
		typ, def, other = "int | *null", lit("null"), num(x)
	case 5:
		typ, def, other = "[...int] | *["+vr.Lit(k)+"]", list(num(k)), list(num(k), num(x))
	case 6:
		typ, def, other = "[...int] | *["+vr.Lit(k)+"]", list(num(k)), list(num(x))
		vr.Assume(x != k)
	case 7:
		typ, def, other = "[...int] | *["+vr.Lit(k)+", "+vr.Lit(k)+"]", list(num(k), num(k)), list()
	}
	var orig, full, bare []fld
	switch vr.Choice("is", 3) {
	case 0:
		full = []fld{{"d", def}}
	case 1:
		orig, full = []fld{{"d", def}}, []fld{{"d", def}}
	case 2:
		orig, full, bare = []fld{{"d", other}}, []fld{{"d", other}}, []fld{{"d", other}}
	}
	r := fld{"r", num(x)}
	orig, full, bare = append(orig, r), append(full, r), append(bare, r)
	s := "{d: " + typ + ", r: int}"
	switch vr.Choice("in", 7) {
	case 0:
		check(s, obj(orig...), obj(full...), obj(bare...))
	case 1:
		check("{n: "+s+"}", obj(fld{"n", obj(orig...)}), obj(fld{"n", obj(full...)}), obj(fld{"n", obj(bare...)}))
	case 2:
		check("{o?: "+s+"}", obj(fld{"o", obj(orig...)}), obj(fld{"o", obj(full...)}), obj(fld{"o", obj(bare...)}))
	case 3:
		e := fld{"e", obj(fld{"d", def})}
		orig, full, bare = append(orig, e), append(full, e), append(bare, e)
		check("{n: {d: "+typ+", r: int, ...}}", obj(fld{"n", obj(orig...)}), obj(fld{"n", obj(full...)}), obj(fld{"n", obj(bare...)}))
	case 4:
		check("{l: [..."+s+"]}", obj(fld{"l", list(obj(orig...), obj(bare...))}), obj(fld{"l", list(obj(full...), obj(ful(bare, def)...))}), obj(fld{"l", list(obj(bare...), obj(bare...))}))
	case 5:
		check("{l: [...[..."+s+"]]}", obj(fld{"l", list(list(obj(orig...)), list())}), obj(fld{"l", list(list(obj(full...)), list())}), obj(fld{"l", list(list(obj(bare...)), list())}))
	case 6:
		check("{#D: "+s+", n: {m: #D}}", obj(fld{"n", obj(fld{"m", obj(orig...)})}), obj(fld{"n", obj(fld{"m", obj(full...)})}), obj(fld{"n", obj(fld{"m", obj(bare...)})}))
	}
}

// ful adds the default for d if it is absent.
func ful(fs []fld, def val) []fld {
	if fs[0].name == "d" {
		return fs
	}
	return append([]fld{{"d", def}}, fs...)
}

// what has no default, or whose default is not filled in, is left alone: optional
// fields, list elements that have a default, constants, undeclared fields
func H_Kept() {
	k, x := vr.Int("k", 0, 99), vr.Int("x", 0, 99)
	ks := vr.Lit(k)
	same := func(body string, v val) { check(body, v, v, v) }
	switch vr.Choice("case", 11) {
	case 0: // an optional field with a default
		same("{o?: int | *"+ks+", r: int}", obj(fld{"o", num(x)}, fld{"r", num(x)}))
	case 1:
		same("{o?: int | *"+ks+", r: int}", obj(fld{"r", num(x)}))
	case 2: // an optional constant
		same("{o?: "+ks+", r: int}", obj(fld{"r", num(x)}))
	case 3:
		same("{o?: "+ks+", r: int}", obj(fld{"o", num(k)}, fld{"r", num(x)}))
	case 4: // list elements
		same("{l: [...(int | *"+ks+")]}", obj(fld{"l", list(num(k), num(x), num(k))}))
	case 5:
		same("{l: [...int], m: [...string]}", obj(fld{"l", list(num(x))}, fld{"m", list(lit("\"a\""), lit("\"a\""))}))
	case 6: // undeclared fields of an open struct
		same("{o?: int | *"+ks+", ...}", obj(fld{"e", obj(fld{"o", num(k)})}, fld{"f", list(num(x))}))
	case 7: // a map
		same("{m: [string]: int}", obj(fld{"m", obj(fld{"a", num(x)}, fld{"b", num(k)})}))
	case 8: // an optional struct stays absent
		same("{o?: {d: int | *"+ks+"}, n: {p?: {d: int | *"+ks+"}}}", obj(fld{"n", obj()}))
	case 9: // any value
		same("{a: _, b?: _}", obj(fld{"a", obj(fld{"z", list(num(x), lit("null"))})}, fld{"b", lit("true")}))
	case 10: // an optional list with a default
		same("{o?: [...int] | *["+ks+"], r: int}", obj(fld{"o", list(num(x))}, fld{"r", num(x)}))
	}
}

// lists whose elements are alternatives: each element is treated by the one it matches
func H_Branches() {
	k, j, x := vr.Int("k", 0, 99), vr.Int("j", 0, 99), vr.Int("x", 0, 99)
	body := "{l: [...({t: \"a\", q: int | *" + vr.Lit(k) + "} | {t: \"b\", w: int | *" + vr.Lit(j) + ", q: int})]}"
	var orig, full, bare []val
	n := 1 + vr.Choice("n", vr.Bound(2, 3))
	for i := 0; i < n; i++ {
		t := fld{"t", lit("\"a\"")}
		switch vr.Choice("e"+kit.Itoa(i), 4) {
		case 0:
			orig, full, bare = append(orig, obj(t)), append(full, obj(t, fld{"q", num(k)})), append(bare, obj(t))
		case 1:
			orig, full = append(orig, obj(t, fld{"q", num(x)})), append(full, obj(t, fld{"q", num(x)}))
			if x == k {
				bare = append(bare, obj(t))
			} else {
				bare = append(bare, obj(t, fld{"q", num(x)}))
			}
		case 2:
			t.v = lit("\"b\"")
			q := fld{"q", num(k)}
			orig, full, bare = append(orig, obj(t, q)), append(full, obj(t, q, fld{"w", num(j)})), append(bare, obj(t, q))
		case 3:
			t.v = lit("\"b\"")
			q := fld{"q", num(k)}
			orig, full = append(orig, obj(t, q, fld{"w", num(x)})), append(full, obj(t, q, fld{"w", num(x)}))
			if x == j {
				bare = append(bare, obj(t, q))
			} else {
				bare = append(bare, obj(t, q, fld{"w", num(x)}))
			}
		}
	}
	check(body, obj(fld{"l", list(orig...)}), obj(fld{"l", list(full...)}), obj(fld{"l", list(bare...)}))
}

// fields whose value or default is computed from another field
func H_Computed() {
	k, a, c := vr.Int("k", 0, 99), vr.Int("a", 0, 99), vr.Int("c", 0, 9)
	has := vr.Choice("has", 2) == 1
	data := "{}"
	if has {
		data = "{a: " + vr.Lit(a) + "}"
	} else {
		a = k
	}
	form := vr.Choice("form", 3)
	b := []string{"a + " + vr.Lit(c), "int | *(a + " + vr.Lit(c) + ")", "*a | int"}[form]
	want := a + c
	if form == 2 {
		want = a
	}
	in := inst("{a: int | *"+vr.Lit(k)+", b: "+b+"}", data)
	h := in.Hydrate()
	full := obj(fld{"a", num(a)}, fld{"b", num(want)})
	vr.Assert(full.same(h.Underlying()), "hydrating adds values computed from the data")
	_, err := in.Schema().Validate(h.Underlying())
	vr.Assert(err == nil, "the hydrated instance is valid")
	vr.Assert(full.same(in.Dehydrate().Hydrate().Underlying()), "hydrating restores what dehydrating removed")
	vr.Reach("end")
}

// dehydrating a field equal to its default when that default depends on another field
func H_ComputedDefault() {
	k, a, b := vr.Int("k", 0, 9), vr.Int("a", 0, 9), vr.Int("b", 0, 9)
	in := inst("{a: int | *"+vr.Lit(k)+", b: int | *a}", "{a: "+vr.Lit(a)+", b: "+vr.Lit(b)+"}")
	full := obj(fld{"a", num(a)}, fld{"b", num(b)})
	vr.Assert(full.same(in.Hydrate().Underlying()), "hydrating a complete instance changes nothing")
	vr.Assert(full.same(in.Dehydrate().Hydrate().Underlying()), "hydrating restores a field whose default depends on another")
	vr.Reach("end")
}
