// C18: what validation errors say.
package c18

import (
	"strings"

	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

// A fault of one field: how the field is written in the data, and what has to be said about it.
type fault struct {
	path    string
	missing bool
	schema  []string // what the schema wanted, any of these
	data    string   // what the data held
	// where the field goes
	in  int // 0 top, 1 nested
	src string
}

const (
	fields = 7
)

// good gives field f's text when it is fine.
func good(f, x int) (in int, src string) {
	switch f {
	case 0:
		return 0, "a: " + vr.Lit(x)
	case 1:
		return 0, "s: \"str\""
	case 2:
		return 0, "l: [7, 8]"
	case 3:
		return 1, "b: true"
	case 4:
		return 1, "e: \"x\""
	case 5:
		return 1, "u: 255"
	}
	return 0, "" // the excess field
}

// bad gives the k-th fault of field f.
func bad(f, k, hi, y int) fault {
	in := 0
	p := []string{"a", "s", "l", "n.b", "n.e", "n.u", "zz"}[f]
	if f >= 3 && f < 6 {
		in = 1
	}
	name := p[strings.LastIndex(p, ".")+1:]
	if f == 6 {
		if k == 0 {
			return fault{path: "zz", schema: []string{"not specify field"}, src: "zz: 1"}
		}
		return fault{path: "n.zz", in: 1, schema: []string{"not specify field"}, src: "zz: " + vr.Lit(y)}
	}
	ty := []string{"int", "string", "list", "bool", "\"x\"", "uint8"}[f]
	if k == 0 {
		if f == 2 {
			// lists are optional: too short a type instead
			return fault{path: "l.1", schema: []string{"uint8"}, data: "\"q\"", src: "l: [1, \"q\"]"}
		}
		return fault{path: p, in: in, missing: true, schema: []string{ty}}
	}
	if k == 1 { // wrong kind
		switch f {
		case 2:
			return fault{path: "l", schema: []string{"[..."}, data: "true", src: "l: true"}
		case 3:
			return fault{path: p, in: in, schema: []string{"bool"}, data: vr.Lit(y), src: "b: " + vr.Lit(y)}
		case 4:
			return fault{path: p, in: in, schema: []string{"\"x\"", "\"y\""}, data: "true", src: "e: true"}
		}
		v := "true"
		if f == 1 {
			v = vr.Lit(y)
		}
		return fault{path: p, in: in, schema: []string{ty}, data: v, src: name + ": " + v}
	}
	// out of bounds
	switch f {
	case 0:
		return fault{path: p, schema: []string{"<" + vr.Lit(hi)}, data: vr.Lit(y), src: "a: " + vr.Lit(y)}
	case 2:
		return fault{path: "l.0", schema: []string{"<=255"}, data: vr.Lit(y), src: "l: [" + vr.Lit(y) + "]"}
	case 4:
		return fault{path: p, in: in, schema: []string{"\"x\"", "\"y\""}, data: "\"zed\"", src: "e: \"zed\""}
	case 5:
		return fault{path: p, in: in, schema: []string{"<=255"}, data: vr.Lit(y), src: "u: " + vr.Lit(y)}
	}
	return bad(f, 1, hi, y)
}

func digits(lit string, x int) string {
	// in messages numbers appear in full, not as source literals
	return strings.ReplaceAll(lit, vr.Lit(x), kit.Itoa(x))
}

// up to two faulty fields out of seven
func H_Reasons() {
	hi := vr.Int("hi", 200, 299)
	x, y := vr.Int("x", 100, 199), vr.Int("y", 300, 999)
	src := "name: \"test\"\nschemas: [{version: [0, 0], schema: {q: string}},\n{version: [1, 0], schema: {a: int & <" + vr.Lit(hi) + ", s: string, l?: [...uint8], n: {b: bool, e: \"x\" | \"y\", u: uint8}}}]\nlenses: []\n"
	lin, err := kit.Bind(rt, src)
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	f1, f2 := vr.Choice("f1", fields+1), 0
	if f1 < fields {
		f2 = vr.Choice("f2", fields+1)
		vr.Assume(f2 > f1)
	} else {
		f2 = fields
	}
	var faults []fault
	add := func(f int, name string) {
		if f == fields {
			return
		}
		n := 3
		if f == 6 {
			n = 2
		}
		faults = append(faults, bad(f, vr.Choice(name, n), hi, y))
	}
	add(f1, "k1")
	add(f2, "k2")
	var parts [2][]string
	for f := 0; f < fields; f++ {
		if f == f1 || f == f2 {
			continue
		}
		if in, s := good(f, x); s != "" {
			parts[in] = append(parts[in], s)
		}
	}
	hard := false
	for _, ft := range faults {
		if ft.src != "" {
			parts[ft.in] = append(parts[ft.in], ft.src)
		}
		hard = hard || !ft.missing
	}
	data := "{" + strings.Join(append(parts[0], "n: {"+strings.Join(parts[1], ", ")+"}"), ", ") + "}"
	in, err := thema.SchemaP(lin, thema.SV(1, 0)).Validate(kit.Data(rt, data))
	vr.Assert((err == nil) == (len(faults) == 0) && (in == nil) == (err != nil), "valid data is accepted and faulty data refused")
	if err == nil {
		vr.Reach("valid")
		return
	}
	vr.Assert(errors.Is(err, terrors.ErrInvalidData), "the error is ErrInvalidData")
	msg := err.Error()
	// positions depend on the width of literals, so only their files are compared
	var lines []string
	side := ".cue:"
	for _, l := range strings.Split(msg, "\n") {
		switch {
		case strings.HasPrefix(l, "<"):
			side = ".cue:"
		case strings.HasPrefix(l, "\tbut "):
			side = "data.json:"
		case strings.HasPrefix(l, "\t\t"):
			vr.Assert(strings.Contains(l, side), "positions in the schema and in the data are told apart")
			continue
		}
		lines = append(lines, l)
	}
	vr.Observe("msg", strings.Join(lines, "\n"))
	paras := strings.Split("\n"+msg, "\n<")[1:]
	vr.Assert(len(paras) > 0, "the error says what is wrong")
	seen := make([]map[string]bool, len(faults))
	for i := range seen {
		seen[i] = map[string]bool{}
	}
	for _, p := range paras {
		j := strings.Index(p, ": ")
		if j < 0 {
			vr.Assert(false, "each problem starts with its coordinates")
			continue
		}
		c, text := p[:j], p[j:]
		found := false
		for i, ft := range faults {
			if c != "test@v1.0>."+ft.path {
				continue
			}
			found = true
			for _, s := range ft.schema {
				at := strings.Index(text, digits(s, hi))
				if at < 0 {
					continue
				}
				ok := true
				if ft.data != "" {
					d := strings.LastIndex(text, "`"+digits(ft.data, y)+"`")
					ok = d > at
				}
				if ok {
					seen[i][s] = true
				}
			}
		}
		vr.Assert(found, "only faulty fields are named, with lineage, version and path")
	}
	for i, ft := range faults {
		if ft.missing && hard {
			continue // CUE reports absent fields only when nothing conflicts
		}
		vr.Assert(len(seen[i]) == len(ft.schema), "each faulty field is named, with what the schema wanted and what the data held")
	}
	if hard {
		vr.Reach("conflict")
	} else {
		vr.Reach("missing")
	}
}

// the coordinates of a problem: lineage, version and path, at any depth of any schema
func H_Coords() {
	shapes := kit.Shapes(vr.Bound(7, 15))
	vs := kit.Versions(shapes[vr.Choice("shape", len(shapes))])
	names := []string{"test", "other-name"}
	name := names[vr.Choice("name", 2)]
	paths := [][]string{{"x"}, {"n", "x"}, {"n", "m", "x"}, {"schemas", "x"}, {"n", "schemas"}, {"l", "1"}, {"l", "0", "x"}, {"n", "l", "2", "version"}, {"schema", "x"}, {"lineage", "version", "schema"}}
	path := paths[vr.Choice("path", len(paths))]
	ty, val, badv := "int", "1", vr.Int("v", 100, 999)
	bads := "\"bad\""
	kind := vr.Choice("kind", 2)
	if kind == 1 {
		ty, bads = "int & <100", vr.Lit(badv)
	}
	// the type and the faulty data, from the inside out
	sch, data := ty, bads
	for i := len(path) - 1; i >= 0; i-- {
		k := path[i]
		if k >= "0" && k <= "9" {
			sch, data = "[..."+sch+"]", "["+strings.Repeat(good1(path[i+1:], val)+", ", int(k[0]-'0'))+data+"]"
		} else {
			sch, data = "{"+k+": "+sch+"}", "{"+k+": "+data+"}"
		}
	}
	src := "name: \"" + name + "\"\nschemas: ["
	for _, v := range vs {
		// every major asks for something else, minors add options
		src += "{version: " + kit.Ver(v) + ", schema: " + sch + " & {maj" + kit.Itoa(int(v[0])) + ": 5"
		for j := 1; j <= int(v[1]); j++ {
			src += ", o" + kit.Itoa(j) + "?: int"
		}
		src += "}},\n"
	}
	lin, err := kit.Bind(rt, src+"]\nlenses: []\n", thema.SkipBuggyChecks())
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	at := vr.Choice("at", len(vs))
	data = data[:len(data)-1] + ", maj" + kit.Itoa(int(vs[at][0])) + ": 5}"
	_, err = thema.SchemaP(lin, vs[at]).Validate(kit.Data(rt, data))
	vr.Assert(err != nil, "faulty data is refused")
	if err == nil {
		return
	}
	want := "<" + name + "@v" + vs[at].String() + ">." + strings.Join(path, ".") + ": "
	vr.Assert(strings.HasPrefix(err.Error(), want), "the problem is located by lineage name, version and path")
	vr.Assert(strings.Count("\n"+err.Error(), "\n<") == 1, "one problem is reported")
	vr.Reach("end")
}

// good1 is valid data below a list element.
func good1(path []string, val string) string {
	for i := len(path) - 1; i >= 0; i-- {
		val = "{" + path[i] + ": " + val + "}"
	}
	return val
}
