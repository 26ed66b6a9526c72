// C27: loading lineages from a file tree.
package c27

import (
	"io/fs"
	"reflect"
	"strings"
	"testing/fstest"

	cload "cuelang.org/go/cue/load"
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	"github.com/grafana/thema/load"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

func file(s string) *fstest.MapFile { return &fstest.MapFile{Data: []byte(s)} }

func lineage(pkg, lim, extra string) string {
	return "package " + pkg + "\n\nimport \"github.com/grafana/thema\"\n\nthema.#Lineage\nname: \"test\"\nschemas: [{version: [0, 0], schema: {a: int & <=" + lim + extra + "}}]\nlenses: []\n"
}

// H_Load: a directory's lineage is loaded as written.
func H_Load() {
	lim, x := vr.Int("lim", 100, 999), vr.Int("x", 100, 999)
	mi := []int{0, 1, 3, 2}[vr.Choice("mod", vr.Bound(3, 4))]
	mod := []string{"example.com/mymod", "github.com/foo/bar", "one.org/a/b/c", "github.com/grafana/thema"}[mi]
	where := vr.Choice("where", 4)
	vr.Assume(mi < 3 || where >= 2) // thema's own root holds thema itself
	dir := []string{"", ".", "sub", "deep/er"}[where]
	pkg := []string{"mymod", "bar", "c", "thema"}[mi]
	if where == 2 {
		pkg = "sub"
	} else if where == 3 {
		pkg = "er"
	}
	m := fstest.MapFS{}
	var opts []load.Option
	p := dir + "/"
	if where < 2 {
		p = ""
	}
	what := vr.Choice("what", 7)
	switch what {
	case 0:
		m[p+"l.cue"] = file(lineage(pkg, vr.Lit(lim), ""))
	case 1: // two files
		m[p+"l.cue"] = file(lineage(pkg, "999", ""))
		m[p+"m.cue"] = file("package " + pkg + "\n\nschemas: [{schema: a: <=" + vr.Lit(lim) + "}]\n")
	case 2: // another package beside it, chosen by name
		m[p+"l.cue"] = file(lineage("other", vr.Lit(lim), ""))
		m[p+"m.cue"] = file(lineage(pkg, "5", ""))
		opts = append(opts, load.Package("other"))
	case 3: // another package beside it, not chosen
		m[p+"l.cue"] = file(lineage(pkg, vr.Lit(lim), ""))
		m[p+"m.cue"] = file(lineage("other", "5", ""))
	case 4: // an import from the module
		m["dep/d.cue"] = file("package dep\n\nLim: " + vr.Lit(lim) + "\n")
		m[p+"l.cue"] = file("package " + pkg + "\n\nimport (\n\t\"github.com/grafana/thema\"\n\t\"" + mod + "/dep\"\n)\n\nthema.#Lineage\nname: \"test\"\nschemas: [{version: [0, 0], schema: {a: int & <=dep.Lim}}]\nlenses: []\n")
	case 5: // an import from outside the module
		m["cue.mod/pkg/dep.org/d/d.cue"] = file("package d\n\nLim: " + vr.Lit(lim) + "\n")
		m[p+"l.cue"] = file("package " + pkg + "\n\nimport (\n\t\"github.com/grafana/thema\"\n\t\"dep.org/d\"\n)\n\nthema.#Lineage\nname: \"test\"\nschemas: [{version: [0, 0], schema: {a: int & <=d.Lim}}]\nlenses: []\n")
	case 6: // files and directories that are not the lineage's
		m[p+"l.cue"] = file(lineage(pkg, vr.Lit(lim), ""))
		m[p+"notes.txt"] = file("package " + pkg + "\n")
		m["cue.mod/usr/x.org/x/x.cue"] = file("package x\n")
		m["elsewhere/l.cue"] = file("package " + pkg + "\n\nschemas: [{schema: a: <=5}]\n")
		m["cue.mod/gen/github.com/grafana/thema/x.cue"] = file("package thema\n")
	}
	var in fs.FS = m
	if what != 5 && what != 6 && vr.Choice("inject", 2) == 1 {
		in = load.AsModFS(m, mod)
	} else {
		m["cue.mod/module.cue"] = file("module: \"" + mod + "\"\n")
		in = load.AsModFS(m, "another.org/name")
	}
	bi, err := load.InstanceWithThema(in, dir, opts...)
	vr.Assert(err == nil, "a directory with a lineage is loaded")
	vr.Assume(err == nil)
	lin, err := thema.BindLineage(rt.Context().BuildInstance(bi), rt)
	vr.Assert(err == nil, "the loaded lineage binds")
	vr.Assume(err == nil)
	_, err = lin.First().Validate(kit.Data(rt, "{a: "+vr.Lit(x)+"}"))
	vr.Assert((err == nil) == (x <= lim), "the loaded lineage is the one in the files")
}

// H_Refuse: what is no module is refused.
func H_Refuse() {
	l := vr.Lit(vr.Int("lim", 100, 999))
	m := fstest.MapFS{"l.cue": file(lineage("mymod", l, ""))}
	dir, module := "", true
	switch vr.Choice("fault", 7) {
	case 0:
	case 1:
		m["cue.mod/module.cue"] = file("module: \"\"\n")
	case 2:
		m["cue.mod/module.cue"] = file("other: \"example.com/mymod\"\n")
	case 3:
		m["cue.mod/module.cue"] = file("module: \"example.com/mymod\"\n")
		m["cue.mod/pkg/github.com/grafana/thema/x.cue"] = file("package thema\n")
	case 4:
		m["cue.mod/module.cue"] = file("module: " + l + "\n")
	case 5:
		m["cue.mod/module.cue"] = file("module: \"example.com/mymod\"\n")
		dir, module = "absent", false
	case 6:
		m["cue.mod/module.cue"] = file("module: \"example.com/mymod\"\n")
		m["bad/l.cue"] = file("package bad\n\na: " + l + " b\n")
		dir, module = "bad", false
	}
	bi, err := load.InstanceWithThema(m, dir)
	vr.Assert(err != nil && bi == nil, "what cannot be loaded is an error")
	var me *load.ErrFSNotACueModule
	vr.Assert(errors.As(err, &me) == module, "what is no module is reported as that, and nothing else is")
}

// H_Overlay: an overlay gets every file of the tree under its prefix, as it
// is, and nothing else.
func H_Overlay() {
	a, b := vr.Lit(vr.Int("a", 100, 999)), vr.Lit(vr.Int("b", 100, 999))
	names := []string{"x.cue", "d/y.cue", "d/e/z.txt", "f.d/x.cue"}
	m := fstest.MapFS{}
	n := 0
	for i, f := range names {
		if vr.Bool("f" + kit.Itoa(i)) {
			m[f] = file([]string{a, b, "", a + b}[i])
			n++
		}
	}
	prefix := []string{"/", "/p", "/p/q/", "p", ""}[vr.Choice("prefix", 5)]
	over := map[string]cload.Source{"/p/q/x.cue": cload.FromString("old"), "/r": cload.FromString(b)}
	err := load.ToOverlay(prefix, m, over)
	if prefix == "p" || prefix == "" {
		vr.Assert(err != nil && len(over) == 2, "a relative prefix is an error")
		return
	}
	vr.Assert(err == nil, "a tree gives an overlay")
	want := 2 + n
	for i, f := range names {
		full := "/" + f
		if prefix != "/" {
			full = strings.TrimSuffix(prefix, "/") + full
		}
		src, ok := over[full]
		if m[f] == nil {
			vr.Assert(ok == (full == "/p/q/x.cue"), "no file comes from nowhere")
			continue
		}
		if full == "/p/q/x.cue" {
			want--
		}
		vr.Assert(ok && reflect.DeepEqual(src, cload.FromBytes([]byte([]string{a, b, "", a + b}[i]))), "every file is there as it is")
	}
	vr.Assert(len(over) == want && reflect.DeepEqual(over["/r"], cload.FromString(b)), "nothing else is touched")
}
