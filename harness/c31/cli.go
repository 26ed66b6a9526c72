// C31: the command line tool's generators.
package c31

import (
	"bytes"
	"strings"

	"cuelang.org/go/cue"
	"github.com/dave/dst"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/gocode"
	"github.com/grafana/thema/vmux"
	"github.com/grafana/thema/zz_verif/kit"
	vos "github.com/grafana/thema/zz_verif/shimos"
	"github.com/grafana/thema/zz_verif/vr"
	"github.com/spf13/cobra"
)

func Setup() {}

func zzReset(c *cobra.Command) {
	for _, s := range c.Commands() {
		zzReset(s)
	}
	c.ResetCommands()
	c.ResetFlags()
	c.SilenceErrors = false
}

// run runs the command; the files are those put in place before.
func zzRun(args ...string) (stdout, stderr string, code int) {
	zzReset(rootCmd)
	var o, e bytes.Buffer
	rootCmd.SetArgs(args)
	rootCmd.SetOut(&o)
	rootCmd.SetErr(&e)
	defer func() {
		stdout, stderr = o.String(), e.String()
		if r := recover(); r != nil {
			c, is := r.(vos.ExitCode)
			if !is {
				panic(r)
			}
			code = int(c)
		}
	}()
	main()
	return
}

var zzVers = []string{"0.0", "0.1", "1.0"}

// lineage makes the text of a lineage whose x is at most max[i] in schema i.
func zzLineage(name string, max []int, fields ...string) string {
	src := "name: \"" + name + "\"\nschemas: ["
	for i, v := range []string{"[0, 0]", "[0, 1]", "[1, 0]"} {
		src += "{version: " + v + ", schema: {x: int & <=" + vr.Lit(max[i]) + ", pct?: =~\"^%s%d\"" + strings.Join(fields, "")
		if i > 0 {
			src += ", o?: string | *\"50%\""
		}
		if i > 1 {
			src += ", m: \"a%b\""
		}
		src += "}},\n"
	}
	return src + "]\n"
}

// put puts the lineage in place, and gives the arguments that name it.
func zzPut(src string, place int) []string {
	vos.Reset(nil, false)
	vos.Setenv("THEMA_SKIP_BUGGY", "1")
	switch place {
	case 0:
		vos.Put("/vfs/l/lin.cue", []byte("package test\n\n"+src))
		return []string{"-l", "/vfs/l/lin.cue"}
	case 1:
		vos.Put("/vfs/l/lin.cue", []byte("package test\n\na: b: {\n"+src+"}\n"))
		return []string{"-l", "/vfs/l", "-p", "a.b"}
	}
	vos.Put("/vfs/cue.mod/module.cue", []byte("module: \"example.com/m\"\n"))
	vos.Put("/vfs/l/lin.cue", []byte("package test\n\nimport \"github.com/grafana/thema\"\n\nthema.#Lineage\n"+src))
	return []string{"-l", "/vfs/l/lin.cue"}
}

// H_Doc: gen openapi and gen jsonschema.
func H_Doc() {
	max := []int{vr.Int("max0", 100, 999), vr.Int("max1", 100, 999), vr.Int("max2", 100, 999)}
	loc := zzPut(zzLineage("test", max), vr.Choice("place", vr.Bound(2, 3)))
	cmd := []string{"openapi", "jsonschema"}[vr.Choice("cmd", 2)]
	args := append([]string{"lineage", "gen", cmd}, loc...)
	v := vr.Choice("version", 4)
	if v < 3 {
		args = append(args, "-v", zzVers[v])
	} else {
		v = 2
	}
	f := vr.Choice("format", 5)
	if f > 0 {
		args = append(args, "-f", []string{"", "json", "yaml", "yml", "xml"}[f])
	}
	o, e, c := zzRun(args...)
	vr.Reach("ran")
	vr.Assert(len(vos.Written) == 0, "no file is written")
	if f == 4 {
		vr.Assert(c == 1 && o == "" && e != "", "an unknown format is an error")
		return
	}
	vr.Assert(c == 0 && e == "", "the document is generated")
	if c != 0 {
		return
	}
	yaml := f >= 2 || f == 0 && cmd == "openapi"
	vr.Assert(strings.HasPrefix(o, "{") != yaml, "the document has the format asked for, or the default one")
	var doc cue.Value
	var err error
	if yaml {
		doc, err = vmux.NewYAMLCodec("doc").Decode(rt.Context(), []byte(o))
	} else {
		doc, err = vmux.NewJSONCodec("doc").Decode(rt.Context(), []byte(o))
	}
	vr.Assert(err == nil && doc.Err() == nil, "the document can be read")
	str := func(v cue.Value, p string) string { s, _ := v.LookupPath(cue.ParsePath(p)).String(); return s }
	vr.Assert(str(doc, "openapi") == "3.0.0" && str(doc, "info.title") == "test" && str(doc, "info.version") == zzVers[v], "the document is about the schema asked for")
	sch := doc.LookupPath(cue.ParsePath("components.schemas.test"))
	vr.Assert((str(sch, "\"$schema\"") != "") == (cmd == "jsonschema"), "a JSON Schema says that it is one")
	m, ok := kit.Int(sch, "properties.x.maximum")
	vr.Assert(ok && m == max[v], "the document has the bound of the schema asked for")
	vr.Assert(str(sch, "properties.pct.pattern") == "^%s%d", "text is as in the schema")
	vr.Assert(sch.LookupPath(cue.ParsePath("properties.o")).Exists() == (v > 0), "the fields are those of the schema asked for")
	if v > 0 {
		vr.Assert(str(sch, "properties.o.default") == "50%", "defaults are as in the schema")
	}
}

const zzHeader = "// THIS FILE IS GENERATED. EDITING IS FUTILE.\n//\n// Generated by \"thema lineage gen\""

// file checks that the tool wrote the file, or printed it, and gives its content
// without the header.
func zzFile(o, e string, c int, stdout bool, path, from string) (string, bool) {
	vr.Assert(c == 0 && e == "", "the code is generated")
	if c != 0 {
		return "", false
	}
	head := zzHeader
	if stdout {
		vr.Assert(len(vos.Written) == 0, "no file is written with --stdout")
	} else {
		vr.Assert(len(vos.Written) == 1 && vos.Written[0] == path, "the code is written next to the lineage")
		b, _ := vos.Content(path)
		o = string(b)
		head += " from lineage defined in " + from
	}
	head += "\n\n"
	vr.Assert(strings.HasPrefix(o, head), "the code has a header")
	return strings.TrimPrefix(o, head), true
}

// H_Types: gen gotypes.
func H_Types() {
	name := []string{"test", "Other"}[vr.Choice("name", 2)]
	src := zzLineage(name, []int{100, 200, 300}, ", "+vr.Str("field", 1, 'b', 'z')+"w: string")
	place := vr.Choice("place", vr.Bound(2, 3))
	vr.Assume((place == 1) == (name == "Other"))
	args := append([]string{"lineage", "gen", "gotypes"}, zzPut(src, place)...)
	v := vr.Choice("version", 4)
	if v < 3 {
		args = append(args, "-v", zzVers[v])
	} else {
		v = 2
	}
	stdout := vr.Bool("stdout")
	if stdout {
		args = append(args, "--stdout")
	}
	cfg := &gocode.TypeConfigOpenAPI{}
	if vr.Bool("pkgname") {
		cfg.PackageName = "pk"
		args = append(args, "--pkgname", "pk")
	}
	o, e, c := zzRun(args...)
	vr.Reach("ran")
	got, ok := zzFile(o, e, c, stdout, "/vfs/l/"+strings.ToLower(name)+"_types_gen.go", []string{"lin.cue", "*.cue", "lin.cue"}[place])
	if !ok {
		return
	}
	if !stdout {
		vr.Assert(o == "", "nothing is printed")
	}
	lin, err := kit.Bind(rt, src, thema.SkipBuggyChecks())
	vr.Assume(err == nil)
	sv, _ := thema.ParseSyntacticVersion(zzVers[v])
	want, err := gocode.GenerateTypesOpenAPI(thema.SchemaP(lin, sv), cfg)
	vr.Assert(err == nil && string(want) == got, "the types are those the library generates for the schema asked for")
}

// H_Bindings: gen gobindings.
func H_Bindings() {
	name := []string{"test", "Other"}[vr.Choice("name", 2)]
	src := zzLineage(name, []int{100, vr.Int("max1", 200, 999), 300})
	place := vr.Choice("place", 3)
	args := append([]string{"lineage", "gen", "gobindings"}, zzPut(src, place)...)
	gomod := false
	if place < 2 && vr.Bool("gomod") {
		gomod = true
		vos.Put("/vfs/go.mod", []byte("module example.com/g\n"))
	}
	cfg := &gocode.BindingConfig{TargetSchemaVersion: thema.SV(1, 0)}
	if place == 1 {
		cfg.CuePath = cue.ParsePath("a.b")
	}
	flags := vr.Choice("flags", vr.Bound(9, 9))
	stdout, quiet := flags == 1, flags == 2
	embed, fsfunc := flags != 3, flags != 4
	if flags > 0 && flags < 7 {
		args = append(args, []string{"", "--stdout", "-q", "--no-embed", "--no-fs-func", "--suffix", "--private"}[flags])
	}
	switch flags {
	case 5:
		cfg.FactoryNameSuffix = true
	case 6:
		cfg.PrivateFactory = true
	case 7:
		args = append(args, "--bind-type", "Ty", "-v", "0.1")
		cfg.Assignee, cfg.TargetSchemaVersion = dst.NewIdent("Ty"), thema.SV(0, 1)
	case 8:
		args = append(args, "--pkgname", "pk", "--bind-type", "Ty", "--suffix", "--private")
		cfg.Assignee, cfg.PackageName, cfg.FactoryNameSuffix, cfg.PrivateFactory = dst.NewIdent("Ty"), "pk", true, true
	}
	from := []string{"lin.cue", "*.cue", "lin.cue"}[place]
	if !stdout {
		if embed {
			cfg.EmbedPath = from
		}
		if fsfunc && (gomod || place == 2) {
			cfg.LoadDir = "."
			cfg.CueModName = "example.com/g"
			if place == 2 {
				cfg.CueModName = "example.com/m/l"
			}
		}
	}
	o, e, c := zzRun(args...)
	vr.Reach("ran")
	path := "/vfs/l/" + strings.ToLower(name) + "_bindings_gen.go"
	got, ok := zzFile(o, e, c, stdout, path, from)
	if !ok {
		return
	}
	if !stdout {
		vr.Assert((o == "") == quiet && (quiet || strings.Contains(o, path)), "the file generated is named unless the tool is quiet")
	}
	lin, err := kit.Bind(rt, src, thema.SkipBuggyChecks())
	vr.Assume(err == nil)
	want, err := gocode.GenerateLineageBinding(lin, cfg)
	vr.Assert(err == nil && string(want) == got, "the bindings are those the library generates")
}

// accepts tells whether the tool, given what it generated, accepts the data.
func zzAccepts(lin, dat string, v string) bool {
	vos.Reset(nil, false)
	vos.Put("/vfs/new.cue", []byte(lin))
	vos.Put("/vfs/data.json", []byte(dat))
	_, _, c := zzRun("data", "validate", "-l", "/vfs/new.cue", "-v", v, "/vfs/data.json")
	return c == 0
}

// H_Init: what init generates is a lineage with the schema given.
func H_Init() {
	max, x := vr.Int("max", 100, 999), vr.Int("x", 100, 999)
	cmd := vr.Choice("cmd", 3)
	args := []string{"lineage", "init", []string{"empty", "jsonschema", "openapi"}[cmd]}
	obj := "{\"type\": \"object\", \"required\": [\"x\"], \"properties\": {\"x\": {\"type\": \"integer\", \"maximum\": " + vr.Lit(max) + "}, \"s\": {\"type\": \"string\", \"pattern\": \"^a%d\"}}}"
	in, ext := obj, ".json"
	if cmd == 2 {
		in = "{\"openapi\": \"3.0.0\", \"info\": {\"title\": \"t\", \"version\": \"1\"}, \"paths\": {}, \"components\": {\"schemas\": {\"Foo\": " + obj + "}}}"
		args = append(args, "--src-subpath", "#Foo")
		if vr.Bool("yaml") {
			ext = ".yaml"
			in = "openapi: 3.0.0\ninfo:\n  title: t\n  version: '1'\npaths: {}\ncomponents:\n  schemas:\n    Foo:\n      type: object\n      required: [x]\n      properties:\n        x:\n          type: integer\n          maximum: " + vr.Lit(max) + "\n        s:\n          type: string\n          pattern: '^a%d'\n"
		}
	}
	vos.Reset(nil, false)
	if cmd > 0 {
		switch vr.Choice("input", 4) {
		case 0:
			vos.Put("/vfs/in"+ext, []byte(in))
			args = append(args, "/vfs/in"+ext)
		case 1:
			vos.Reset([]byte(in), true)
		case 2: // none
			_, e, c := zzRun(append(args, "-n", "nn")...)
			vr.Assert(c == 1 && e != "", "init says that there is no input")
			return
		case 3: // broken
			vos.Put("/vfs/in"+ext, []byte("{\""+in))
			_, e, c := zzRun(append(args, "-n", "nn", "/vfs/in"+ext)...)
			vr.Assert(c == 1 && e != "", "init says that the input is broken")
			return
		}
	}
	pkg := "nn"
	switch vr.Choice("names", 6) {
	case 0:
		args = append(args, "-n", "nn")
	case 1:
		args = append(args, "--name", "nn", "--package-name", "pk")
		pkg = "pk"
	case 2:
		args = append(args, "-n", "nn", "--no-package")
		pkg = ""
	case 3: // no name
		o, e, c := zzRun(args...)
		vr.Assert(c == 1 && o == "" && e != "", "init needs a name")
		return
	case 4: // both
		o, e, c := zzRun(append(args, "-n", "nn", "--no-package", "--package-name", "pk")...)
		vr.Assert(c == 1 && o == "" && e != "", "init refuses contradictory flags")
		return
	case 5:
		o, e, c := zzRun(append(args, "-n", "nn", "--package-name", "p-k")...)
		vr.Assert(c == 1 && o == "" && e != "", "init refuses bad package names")
		return
	}
	o, e, c := zzRun(args...)
	vr.Reach("made")
	vr.Assert(c == 0 && e == "" && len(vos.Written) == 0, "the lineage is generated")
	if c != 0 {
		return
	}
	if pkg == "" {
		vr.Assert(!strings.HasPrefix(o, "package"), "the lineage has no package")
	} else {
		vr.Assert(strings.HasPrefix(o, "package "+pkg+"\n"), "the lineage is in the package asked for")
	}
	if cmd == 0 {
		vr.Assert(zzAccepts(o, "{}", "0.0"), "the empty schema accepts the empty object")
		vr.Assert(!zzAccepts(o, "{\"x\": "+vr.Lit(x)+"}", "0.0"), "the empty schema accepts nothing else")
		return
	}
	vr.Assert(zzAccepts(o, "{\"x\": "+vr.Lit(x)+"}", "0.0") == (x <= max), "the schema is the one given")
	vr.Assert(zzAccepts(o, "{\"x\": 0, \"s\": \"a%d\"}", "0.0") && !zzAccepts(o, "{\"x\": 0, \"s\": \"b\"}", "0.0") && !zzAccepts(o, "{}", "0.0"), "the schema is the one given in all its fields")
}

// H_Fix: fix rewrites the file in place.
func H_Fix() {
	m0, m1, x := vr.Int("max0", 100, 999), vr.Int("max1", 100, 999), vr.Int("x", 100, 999)
	mod := vr.Bool("mod")
	src := "package test\n\nimport \"github.com/grafana/thema\"\n\nthema.#Lineage\nname: \"test\"\nseqs: [{schemas: [{x: int & <=" + vr.Lit(m0) + "}, {x: int & <=" + vr.Lit(m1) + ", o?: int}]}]\n"
	vos.Reset(nil, false)
	if mod {
		vos.Put("/vfs/cue.mod/module.cue", []byte("module: \"example.com/m\"\n"))
	}
	vos.Put("/vfs/l/old.cue", []byte(src))
	o, e, c := zzRun("lineage", "fix", "-l", "/vfs/l/old.cue")
	vr.Reach("ran")
	vr.Assert(c == 0 && e == "" && o == "", "the lineage is fixed")
	if c != 0 {
		return
	}
	vr.Assert(len(vos.Written) == 1 && vos.Written[0] == "/vfs/l/old.cue", "the file is rewritten in place, and no other")
	b, _ := vos.Content("/vfs/l/old.cue")
	// the lens from 0.1 to 0.0 is for the user to write
	b = bytes.ReplaceAll(b, []byte("_|_"), []byte("x: 100"))
	dat := "{\"x\": " + vr.Lit(x) + "}"
	vr.Assert(zzAcceptsSkip(string(b), dat, "0.0") == (x <= m0) && zzAcceptsSkip(string(b), dat, "0.1") == (x <= m1), "the lineage accepts what it did")
}

func zzAcceptsSkip(lin, dat string, v string) bool {
	vos.Reset(nil, false)
	vos.Setenv("THEMA_SKIP_BUGGY", "1")
	vos.Put("/vfs/new.cue", []byte(lin))
	vos.Put("/vfs/data.json", []byte(dat))
	_, _, c := zzRun("data", "validate", "-l", "/vfs/new.cue", "-v", v, "/vfs/data.json")
	return c == 0
}
