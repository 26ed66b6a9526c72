// C28: the Go types generated for a schema.
package c28

import (
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strconv"
	"strings"

	"cuelang.org/go/cue"
	"github.com/dave/dst"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/gocode"
	"github.com/grafana/thema/encoding/openapi"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

// gofile is a generated file.
type gofile struct {
	pkg    string
	types  map[string]ast.Expr
	consts map[string][2]string // name to type and value
	good   bool                 // no name is declared twice, and every one used is declared
	tags   bool                 // every field has a tag and an exported name
}

var basic = map[string]bool{"int": true, "int32": true, "int64": true, "string": true, "bool": true, "float32": true, "float64": true, "any": true, "byte": true}

func parse(b []byte) *gofile {
	f, err := parser.ParseFile(token.NewFileSet(), "x.go", b, 0)
	vr.Assert(err == nil, "the generated file is Go")
	vr.Assume(err == nil)
	g := &gofile{pkg: f.Name.Name, types: map[string]ast.Expr{}, consts: map[string][2]string{}, good: len(f.Imports) == 0, tags: true}
	for _, d := range f.Decls {
		gd, ok := d.(*ast.GenDecl)
		if !ok {
			g.good = false
			continue
		}
		for _, s := range gd.Specs {
			switch s := s.(type) {
			case *ast.TypeSpec:
				g.declare(s.Name.Name)
				g.types[s.Name.Name] = s.Type
			case *ast.ValueSpec:
				g.declare(s.Names[0].Name)
				g.consts[s.Names[0].Name] = [2]string{s.Type.(*ast.Ident).Name, s.Values[0].(*ast.BasicLit).Value}
			}
		}
	}
	return g
}

func (g *gofile) declare(n string) {
	_, t := g.types[n]
	_, c := g.consts[n]
	if t || c || !token.IsIdentifier(n) || !token.IsExported(n) {
		g.good = false
	}
}

// norm writes a type with everything named expanded: fields as
// name, * for a pointer, ? for omitempty.
func (g *gofile) norm(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		if t, ok := g.types[e.Name]; ok {
			return g.norm(t)
		}
		if !basic[e.Name] {
			g.good = false
		}
		return e.Name
	case *ast.StarExpr:
		return "*" + g.norm(e.X)
	case *ast.ArrayType:
		return "[]" + g.norm(e.Elt)
	case *ast.MapType:
		return "map[" + g.norm(e.Key) + "]" + g.norm(e.Value)
	case *ast.InterfaceType:
		return "any"
	case *ast.StructType:
		s := "{"
		seen := map[string]bool{}
		for _, f := range e.Fields.List {
			if len(f.Names) == 0 { // embedded
				in := g.norm(f.Type)
				s += strings.TrimSuffix(strings.TrimPrefix(in, "{"), "}")
				continue
			}
			n := f.Names[0].Name
			if seen[n] || len(f.Names) != 1 || f.Tag == nil || !token.IsExported(n) || !token.IsIdentifier(n) {
				g.tags = false
				continue
			}
			seen[n] = true
			tag, err := strconv.Unquote(f.Tag.Value)
			if err != nil || !strings.HasPrefix(tag, "json:\"") {
				g.tags = false
				continue
			}
			s += strings.TrimSuffix(tag[6:], "\"") + " " + g.norm(f.Type) + ";"
		}
		return s + "}"
	}
	g.good = false
	return "?"
}

// kind of a field: how it is declared and the Go type, with o for when it is optional.
type kind struct{ cue, typ, opt string }

const defs = ", #D: {q: int, r?: #E}, #E: {s: \"k\" | \"l\"}, #C: \"x\" | \"y\", #I: int & >5, #L: [...#D], #Un_der: {s: #C}"

const (
	goE = "{s string;}"
	goD = "{q int;r,omitempty *" + goE + ";}"
)

var kinds = []kind{
	{"int", "int", "*int"},
	{"string", "string", "*string"},
	{"\"one\" | \"two-three\"", "string", "*string"},
	{"[...int]", "[]int", "[]int"},
	{"[string]: bool", "map[string]bool", "map[string]bool"},
	{"#D", goD, "*" + goD},
	{"{x: int, y?: string}", "{x int;y,omitempty *string;}", "*{x int;y,omitempty *string;}"},
	{"[...#D]", "[]" + goD, "[]" + goD},
	{"string | null", "*string", "*string"},
	{"#Un_der", "{s string;}", "*{s string;}"},
	{"string | int", "any", "*any"},
	{"#D | #E", "any", "*any"},
	{"bool", "bool", "*bool"},
	{"int64", "int64", "*int64"},
	{"int32", "int32", "*int32"},
	{"int & >=0 & <=100", "int", "*int"},
	{"int | *5", "int", "*int"},
	{"*\"p\" | \"q\"", "string", "*string"},
	{"bytes", "[]byte", "[]byte"},
	{"_", "any", "*any"},
	{"1 | 2", "int", "*int"},
	{"\"only\"", "string", "*string"},
	{"[...{x: int, y: [...{z: string}]}]", "[]{x int;y []{z string;};}", "[]{x int;y []{z string;};}"},
	{"[string]: {x: int, y?: int}", "map[string]{x int;y,omitempty *int;}", "map[string]{x int;y,omitempty *int;}"},
	{"[string]: #Un_der", "map[string]{s string;}", "map[string]{s string;}"},
	{"[...#Un_der]", "[]{s string;}", "[]{s string;}"},
	{"[string]: [string]: int", "map[string]map[string]int", "map[string]map[string]int"},
	{"[...(\"p\" | \"q\")]", "[]string", "[]string"},
	{"[...] ", "[]any", "[]any"},
	{"#C", "string", "*string"},
	{"#I", "int", "*int"},
	{"#L", "[]" + goD, "*[]" + goD},
	{"{x: int} | null", "*{x int;}", "*{x int;}"},
	{"[...int] | null", "[]int", "[]int"},
	{"\"a\" | \"b\" | null", "*string", "*string"},
	{"{...}", "map[string]any", "map[string]any"},
	{"[...(#D | #E)]", "[]any", "[]any"},
	{"[string]: (#D | #E)", "map[string]any", "map[string]any"},
	{"number", "float32", "*float32"},
}

// H_Fields: every kind of field in every place.
func H_Fields() {
	ki := vr.Choice("kind", len(kinds))
	k := kinds[ki]
	opt := vr.Choice("optional", 2) == 1
	nullable := strings.Contains(k.cue, "null")
	name := vr.Str("name", 1, 'b', 'z') + "w"
	f := "\"" + name + "\""
	want := name
	typ, star := k.typ, "*"
	if opt {
		f += "?"
		typ = k.opt
		if !nullable {
			want += ",omitempty"
		}
	}
	cfg := &gocode.TypeConfigOpenAPI{PackageName: "pk"}
	place := []int{0, 3, 1, 2, 4, 5}[vr.Choice("place", vr.Bound(2, 6))]
	if vr.Bound(place, 0) == 0 && vr.Choice("nopointers", 2) == 1 {
		cfg.NoOptionalPointers = true
		typ = strings.ReplaceAll(typ, "*", "")
		star = ""
	}
	f += ": " + k.cue
	if strings.HasPrefix(k.cue, "[string]") {
		f = f[:len(f)-len(k.cue)] + "{" + k.cue + "}"
	}
	body, full := "", ""
	want += " " + typ + ";"
	switch place {
	case 0:
		body, full = "{a: int, "+f, "{a int;"+want+"}"
	case 1:
		body, full = "{a: {"+f+"}", "{a {"+want+"};}"
	case 2:
		body, full = "{a: [...{"+f+"}]", "{a []{"+want+"};}"
	case 3:
		body, full = "{a: #G, #G: {"+f+"}", "{a {"+want+"};}"
	case 4:
		body, full = "{a?: {"+f+", yz: string}", "{a,omitempty "+star+"{"+want+"yz string;};}"
	case 5:
		body, full = "{a: {[string]: {"+f+"}}", "{a map[string]{"+want+"};}"
	}
	lin, err := kit.Bind(rt, "name: \"test\"\nschemas: [{version: [0, 0], schema: "+body+defs+"}}]\nlenses: []\n")
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	b, err := gocode.GenerateTypesOpenAPI(lin.First(), cfg)
	vr.Assert(err == nil, "types are generated")
	vr.Assume(err == nil)
	g := parse(b)
	vr.Assert(g.types["Test"] != nil, "the schema has a type")
	vr.Assume(g.types["Test"] != nil)
	got := g.norm(g.types["Test"])
	vr.Assert(got == full, "every field has its Go field, of the right type")
	vr.Assert(g.good && g.tags && g.pkg == "pk", "the file is complete")
}

// fields checks the type of a schema with int fields of the given names.
func fields(msg string, names ...string) {
	src := ""
	for _, n := range names {
		src += "\"" + n + "\": int, "
	}
	lin, err := kit.Bind(rt, "name: \"test\"\nschemas: [{version: [0, 0], schema: {"+src+"}}]\nlenses: []\n")
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	b, err := gocode.GenerateTypesOpenAPI(lin.First(), nil)
	vr.Assert(err == nil, "types are generated")
	vr.Assume(err == nil)
	g := parse(b)
	vr.Assert(g.types["Test"] != nil, "the schema has a type")
	vr.Assume(g.types["Test"] != nil)
	got := g.norm(g.types["Test"])
	vr.Assert(g.good && g.tags && g.pkg == "test", msg)
	if g.tags {
		sort.Strings(names)
		want := ""
		for _, n := range names {
			want += n + " int;"
		}
		vr.Assert(got == "{"+want+"}", "the fields are found under their names")
	}
}

// H_Name: a field of any name that starts with a letter.
func H_Name() {
	name := vr.Str("first", 1, 'A', 'z')
	vr.Assume(name[0] < '[' || name[0] >= 'a')
	for i, n := 0, vr.Choice("len", vr.Bound(2, 3)); i < n; i++ {
		c := char("c"+kit.Itoa(i), '~')
		vr.Assume(c[0] != '`' && c[0] != ',')
		name += c
	}
	fields("a field has an exported Go name", name)
}

// H_OddName: a field whose name starts with something else.
func H_OddName() {
	fields("a field whose name starts with a sign has an exported Go name", vr.Str("sign", 1, '$', '/')+"x")
}

// H_Two: fields whose names differ in signs only.
func H_Two() {
	a, b := vr.Str("a", 1, '-', '_'), vr.Str("b", 1, '-', '_')
	vr.Assume(a != b && a[0] != '\\' && b[0] != '\\')
	fields("fields whose names differ have different Go names", "x"+a+"y", "x"+b+"y")
}

// enum checks the constants of an enumeration.
func enum(vals []string) {
	src := ""
	for i, v := range vals {
		for _, o := range vals[:i] {
			vr.Assume(o != v)
		}
		src += " | \"" + v + "\""
	}
	lin, err := kit.Bind(rt, "name: \"test\"\nschemas: [{version: [0, 0], schema: {ef: "+src[3:]+"}}]\nlenses: []\n")
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	b, err := gocode.GenerateTypesOpenAPI(lin.First(), nil)
	vr.Assert(err == nil, "types are generated")
	vr.Assume(err == nil)
	g := parse(b)
	vr.Assert(g.types["Test"] != nil && g.types["TestEf"] != nil, "the schema and the enumeration have types")
	vr.Assert(len(g.consts) == len(vals), "there is a constant for each value")
	for _, v := range vals {
		n := 0
		for _, c := range g.consts {
			if s, err := strconv.Unquote(c[1]); err == nil && c[0] == "TestEf" && s == v {
				n++
			}
		}
		vr.Assert(n == 1, "every value has its constant")
	}
	vr.Assert(g.good && g.tags, "the file is complete")
}

// char is a character that needs no escape.
func char(n string, hi int) string {
	c := vr.Str(n, 1, ' ', byte(hi))
	vr.Assume(c[0] != '"' && c[0] != '\\')
	return c
}

// H_Enum: enumerations of any values that start with a letter.
func H_Enum() {
	vals := []string{"a" + char("b", '~'), vr.Str("c", 1, 'a', 'b') + char("d", vr.Bound('/', '~')), "a1"}
	enum(vals)
}

// H_Config: names of the package and the types.
func H_Config() {
	lname := []string{"test", "Name", "two-parts", "withUpper"}[vr.Choice("lineage", 4)]
	lin, err := kit.Bind(rt, "name: \""+lname+"\"\nschemas: [{version: [0, 0], schema: {a: b: c: int, #D: {e: string}, l: #D}}]\nlenses: []\n")
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	cfg := &gocode.TypeConfigOpenAPI{}
	pkg := strings.ToLower(lname)
	if vr.Choice("package", 2) == 1 {
		pkg = "p" + vr.Str("pk", 1, 'a', 'z')
		vr.Assume(pkg[1] != 'k')
		cfg.PackageName = pkg
	} else {
		vr.Assume(lname != "two-parts")
	}
	want := map[string]string{"D": "{e string;}"}
	root := []string{"Test", "Name", "Twoparts", "WithUpper"}
	rn := ""
	for i, n := range []string{"test", "Name", "two-parts", "withUpper"} {
		if n == lname {
			rn = root[i]
		}
	}
	switch vr.Choice("config", 5) {
	case 0:
		want[rn] = "{a {b {c int;};};l {e string;};}"
	case 1:
		cfg.Config = &openapi.Config{RootName: "R" + vr.Str("rn", 1, 'a', 'z')}
		want[cfg.Config.RootName] = "{a {b {c int;};};l {e string;};}"
	case 2:
		cfg.Config = &openapi.Config{Group: true}
		want["A"] = "{b {c int;};}"
		want["L"] = "{e string;}"
	case 3:
		cfg.Config = &openapi.Config{Subpath: cue.ParsePath("a.b")}
		want = map[string]string{"B": "{c int;}"}
	case 4:
		cfg.Config = &openapi.Config{Subpath: cue.ParsePath("a.b"), RootName: "Q"}
		want = map[string]string{"Q": "{c int;}"}
	}
	for i := 0; i < 2; i++ {
		b, err := gocode.GenerateTypesOpenAPI(lin.First(), cfg)
		vr.Assert(err == nil, "types are generated")
		vr.Assume(err == nil)
		g := parse(b)
		vr.Assert(g.pkg == pkg, "the package is named as configured, or as the lineage in lower case")
		vr.Assert(len(g.types) == len(want), "the types are those of the configured part")
		for n, t := range want {
			vr.Assert(g.types[n] != nil, "a type is named as it should be")
			vr.Assume(g.types[n] != nil)
			vr.Assert(g.norm(g.types[n]) == t, "a type has its fields")
		}
		if vr.Choice("again", 2) == 0 {
			return
		}
		// the same configuration for another lineage
		lin, err = kit.Bind(rt, "name: \"other\"\nschemas: [{version: [0, 0], schema: {a: b: c: int, #D: {e: string}, l: #D}}]\nlenses: []\n")
		vr.Assume(err == nil)
		if pkg == strings.ToLower(lname) {
			pkg = "other"
		}
		if t, ok := want[rn]; ok {
			delete(want, rn)
			want["Other"] = t
		}
	}
}

// H_Binding: the code that binds a lineage from Go.
func H_Binding() {
	lname := []string{"test", "Name"}[vr.Choice("lineage", 2)]
	lin, err := kit.Bind(rt, "name: \""+lname+"\"\nschemas: [{version: [0, 0], schema: {a: int}}]\nlenses: []\n")
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	cfg := &gocode.BindingConfig{}
	w := vr.Str("word", 1, 'a', 'z')
	pkg := strings.ToLower(lname)
	parts := []int{7, 2, 4, 1, 0, 3, 5, 6}[vr.Choice("parts", vr.Bound(4, 8))]
	if parts&1 != 0 {
		cfg.EmbedPath = w + "m.cue"
	}
	if parts&2 != 0 {
		cfg.LoadDir = w + "dir"
	}
	if parts&4 != 0 {
		cfg.CueModName = "ex.com/" + w
	}
	fn := "Lineage"
	switch vr.Choice("names", 4) {
	case 1:
		cfg.FactoryNameSuffix = true
		fn = "LineageTest"
		if lname == "Name" {
			fn = "LineageName"
		}
	case 2:
		cfg.FactoryNameSuffix, cfg.TitleName = true, "My"+w
		fn = "LineageMy" + w
	case 3:
		cfg.PackageName = w + "pkg"
		pkg = cfg.PackageName
	}
	base := fn
	major, minor := vr.Int("major", 100, 999), vr.Int("minor", 10, 99)
	conv := vr.Choice("assignee", 3)
	cfg.PrivateFactory = vr.Bool("private")
	typ := []string{"", "Foo" + w, "*Foo" + w}[conv]
	if conv > 0 {
		cfg.Assignee = dst.NewIdent(typ)
		cfg.TargetSchemaVersion = thema.SV(uint(major), uint(minor))
		base = "base" + fn
	}
	if cfg.PrivateFactory {
		if conv > 0 {
			fn = "do" + fn
		} else {
			base = "do" + base
			fn = base
		}
	}
	if vr.Choice("path", 2) == 1 {
		cfg.CuePath = cue.ParsePath("x" + w + ".y")
	}
	b, err := gocode.GenerateLineageBinding(lin, cfg)
	vr.Assert(err == nil, "a binding is generated")
	vr.Assume(err == nil)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, "x.go", b, parser.ParseComments)
	vr.Assert(err == nil, "the generated file is Go")
	vr.Assume(err == nil)
	vr.Assert(f.Name.Name == pkg, "the package is named as configured, or as the lineage in lower case")
	funcs := map[string]*ast.FuncDecl{}
	vars := map[string]bool{}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			funcs[d.Name.Name] = d
		case *ast.GenDecl:
			for _, s := range d.Specs {
				if v, ok := s.(*ast.ValueSpec); ok && v.Names[0].Name != "_" {
					vars[v.Names[0].Name] = d.Doc != nil && len(d.Doc.List) == 1 && d.Doc.List[0].Text == "//go:embed "+cfg.EmbedPath
				}
			}
		}
	}
	n := 1
	vr.Assert(funcs[base] != nil && result(funcs[base], 0) == "thema.Lineage", "there is a function that binds the lineage, of the right name")
	vr.Assume(funcs[base] != nil)
	vr.Assert(calls(funcs[base], "loadInstanceFor"+lname) == "" && calls(funcs[base], "thema.BindLineage") == "raw,rt,opts", "the function binds what it loads")
	want := "\"\""
	if cfg.CuePath.String() != "" {
		want = "\"x" + w + ".y\""
	}
	vr.Assert(calls(funcs[base], "cue.ParsePath") == want, "the function looks at the configured path")
	if conv > 0 {
		n++
		vr.Assert(funcs[fn] != nil && result(funcs[fn], 0) == "thema.ConvergentLineage["+typ+"]", "there is a function that binds the type too")
		vr.Assume(funcs[fn] != nil)
		vr.Assert(calls(funcs[fn], "thema.SV") == strconv.Itoa(major)+","+strconv.Itoa(minor), "the type is bound to the configured version")
		vr.Assert(calls(funcs[fn], base) == "rt,opts", "the function binds the lineage")
	}
	if parts&2 != 0 {
		n++
		fd := funcs["loadInstanceFor"+lname]
		vr.Assert(fd != nil, "there is a loader if there is a directory")
		vr.Assume(fd != nil)
		vr.Assert(calls(fd, "load.InstanceWithThema") == "getThemaFSFor"+lname+"(),\""+cfg.LoadDir+"\"", "the loader loads the configured directory")
	}
	if parts&1 != 0 {
		vr.Assert(vars["themaFSFor"+lname], "the configured path is embedded")
		if parts&4 != 0 {
			n++
			fd := funcs["getThemaFSFor"+lname]
			vr.Assert(fd != nil, "there is a file system if there is a module name")
			vr.Assume(fd != nil)
			vr.Assert(calls(fd, "load.AsModFS") == "themaFSFor"+lname+",\""+cfg.CueModName+"\"", "the file system has the configured module")
		}
	} else {
		vr.Assert(len(vars) == 0, "nothing is embedded without a path")
	}
	vr.Assert(len(funcs) == n, "there are no other functions")
}

// text writes an expression.
func text(e ast.Expr) string {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name
	case *ast.BasicLit:
		return e.Value
	case *ast.SelectorExpr:
		return text(e.X) + "." + e.Sel.Name
	case *ast.StarExpr:
		return "*" + text(e.X)
	case *ast.IndexExpr:
		return text(e.X) + "[" + text(e.Index) + "]"
	case *ast.CallExpr:
		s := ""
		for i, a := range e.Args {
			if i > 0 {
				s += ","
			}
			s += text(a)
		}
		return text(e.Fun) + "(" + s + ")"
	}
	return "?"
}

func result(f *ast.FuncDecl, i int) string { return text(f.Type.Results.List[i].Type) }

// calls gives the arguments of the call of the named function.
func calls(f *ast.FuncDecl, name string) string {
	s := "none"
	ast.Inspect(f, func(n ast.Node) bool {
		if c, ok := n.(*ast.CallExpr); ok && text(c.Fun) == name {
			t := text(c)
			s = t[len(name)+1 : len(t)-1]
		}
		return true
	})
	return s
}
