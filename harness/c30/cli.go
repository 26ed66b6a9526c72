// C30: the command line tool's operations on data.
package c30

import (
	"bytes"

	"cuelang.org/go/cue"
	"github.com/grafana/thema"
	"github.com/grafana/thema/zz_verif/kit"
	vos "github.com/grafana/thema/zz_verif/shimos"
	"github.com/grafana/thema/zz_verif/vr"
	"github.com/spf13/cobra"
)

func Setup() {}

func zzReset(c *cobra.Command) {
	for _, s := range c.Commands() {
		zzReset(s)
	}
	c.ResetCommands()
	c.ResetFlags()
	c.SilenceErrors = false
}

// run runs the command; the files are those put in place before.
func zzRun(args ...string) (stdout, stderr string, code int) {
	zzReset(rootCmd)
	var o, e bytes.Buffer
	rootCmd.SetArgs(args)
	rootCmd.SetOut(&o)
	rootCmd.SetErr(&e)
	defer func() {
		stdout, stderr = o.String(), e.String()
		if r := recover(); r != nil {
			c, is := r.(vos.ExitCode)
			if !is {
				panic(r)
			}
			code = int(c)
		}
	}()
	main()
	return
}

type zzWorld struct {
	src     string
	up, def []int
	x, d    int
	hasd    bool
	acc     []bool
	dat     string // the data, as JSON
}

var (
	zzVers  = []string{"0.0", "0.1", "1.0"}
	zzLists = []string{"[0, 0]", "[0, 1]", "[1, 0]"}
)

// setup makes a lineage of three schemas and some data, as JSON or YAML, in a file or
// on standard input, and gives the arguments that name them.
func zzSetup(cmd string, where, format, place int) (w zzWorld, args []string) {
	w.x = vr.Int("x", 100, 999)
	w.hasd = vr.Bool("hasd")
	w.src = "name: \"test\"\nschemas: ["
	for i, v := range zzLists {
		up, def := vr.Int("up"+kit.Itoa(i), 101, 999), vr.Int("def"+kit.Itoa(i), 100, 999)
		w.up, w.def = append(w.up, up), append(w.def, def)
		w.acc = append(w.acc, w.x < up)
		w.src += "{version: " + v + ", schema: {x: int & <" + vr.Lit(up) + ", d: int | *" + vr.Lit(def) + "}},\n"
	}
	w.src += "]\nlenses: [\n"
	for _, p := range [][2]int{{0, 1}, {1, 2}, {2, 1}} {
		w.src += "\t{to: " + zzLists[p[0]] + ", from: " + zzLists[p[1]] + ", input: _, result: {x: 100, d: input.d}, lacunas: [{message: \"m\", type: {name: \"Placeholder\", id: 1}}]},\n"
	}
	w.src += "]\n"
	w.dat = "{\"x\": " + vr.Lit(w.x)
	yml := "x: " + vr.Lit(w.x) + "\n"
	if w.hasd {
		w.d = vr.Int("d", 100, 999)
		w.dat += ", \"d\": " + vr.Lit(w.d)
		yml += "d: " + vr.Lit(w.d) + "\n"
	}
	w.dat += "}\n"
	dat := w.dat
	if format == 1 {
		dat = yml
	}
	name := "/vfs/data" + []string{".json", ".yaml"}[format]
	args = []string{"data", cmd}
	if where == 0 {
		vos.Reset(nil, false)
		vos.Put(name, []byte(dat))
		args = append(args, name)
	} else {
		vos.Reset([]byte(dat), true)
	}
	vos.Setenv("THEMA_SKIP_BUGGY", "1")
	switch place {
	case 0: // a file that is the lineage
		vos.Put("/vfs/l/lin.cue", []byte("package test\n\n"+w.src))
		args = append(args, "-l", "/vfs/l/lin.cue")
	case 1: // a directory, with the lineage at a path
		vos.Put("/vfs/l/lin.cue", []byte("package test\n\na: b: {\n"+w.src+"}\n"))
		args = append(args, "-l", "/vfs/l", "-p", "a.b")
	case 2: // a file in a CUE module
		vos.Put("/vfs/cue.mod/module.cue", []byte("module: \"example.com/m\"\n"))
		vos.Put("/vfs/l/lin.cue", []byte("package test\n\nimport \"github.com/grafana/thema\"\n\nthema.#Lineage\n"+w.src))
		vos.Put("/vfs/l/other.cue", []byte("package other\n\nx: 1\n"))
		args = append(args, "-l", "/vfs/l/lin.cue")
	}
	return
}

// version chooses a version, or none.
func zzVersion(args []string, sep string) (int, []string) {
	v := vr.Choice("version", len(zzVers)+1)
	if v < len(zzVers) {
		args = append(args, sep, zzVers[v])
	}
	return v, args
}

func zzUntouched() { vr.Assert(len(vos.Written) == 0, "no file is written") }

// H_Validate: validate.
func H_Validate() {
	w, args := zzSetup("validate", vr.Choice("where", 2), vr.Choice("format", 2), vr.Choice("place", 3))
	v, args := zzVersion(args, "-v")
	if v == len(zzVers) {
		v--
	}
	quiet := vr.Bool("quiet")
	if quiet {
		args = append(args, "-q")
	}
	o, e, c := zzRun(args...)
	vr.Reach("ran")
	vr.Assert((c == 0) == w.acc[v], "validate exits 0 exactly for data the schema accepts")
	vr.Assert(o == "", "validate prints nothing on stdout")
	vr.Assert((e != "") == (c != 0 && !quiet), "validate says what is wrong unless it is quiet")
	zzUntouched()
}

// H_Any: validate-any.
func H_Any() {
	w, args := zzSetup("validate-any", vr.Choice("where", 2), vr.Choice("format", 2), vr.Choice("place", vr.Bound(1, 3)))
	v, args := zzVersion(args, "-v")
	quiet := vr.Bool("quiet")
	if quiet {
		args = append(args, "-q")
	}
	want := ""
	for i, ok := range w.acc {
		if ok && (want == "" || i == v) {
			want = zzVers[i] + "\n"
		}
	}
	o, e, c := zzRun(args...)
	vr.Reach("ran")
	vr.Assert((c == 0) == (want != ""), "validate-any exits 0 exactly for data that some schema accepts")
	if quiet {
		vr.Assert(o == "" && e == "", "a quiet validate-any prints nothing")
	} else {
		vr.Assert(o == want, "validate-any prints the version asked for, or else the oldest that accepts the data")
		if v < len(zzVers) {
			vr.Assert((e != "") == (c != 0), "validate-any says what is wrong")
		}
	}
	zzUntouched()
}

// hyd checks the output of hydrate and dehydrate.
func zzHyd(cmd string) {
	w, args := zzSetup(cmd, vr.Choice("where", 2), vr.Choice("format", 2), vr.Choice("place", vr.Bound(1, 3)))
	v, args := zzVersion(args, "-v")
	sch := -1
	for i, ok := range w.acc {
		if ok && (v == i || v == len(zzVers)) && sch < 0 {
			sch = i
		}
	}
	o, e, c := zzRun(args...)
	vr.Reach("ran")
	vr.Assert((c == 0) == (sch >= 0), cmd+" exits 0 exactly for data that the schema, or some schema, accepts")
	vr.Assert((e != "") == (c != 0), cmd+" says what is wrong")
	zzUntouched()
	if sch < 0 {
		vr.Assert(o == "", cmd+" prints nothing for data that is not valid")
		return
	}
	out := kit.Data(rt, o)
	vr.Assert(out.Err() == nil, "the output is JSON")
	x, okx := kit.Int(out, "x")
	d, okd := kit.Int(out, "d")
	vr.Assert(okx && x == w.x, cmd+" keeps the data")
	if cmd == "hydrate" {
		want := w.def[sch]
		if w.hasd {
			want = w.d
		}
		vr.Assert(okd && d == want, "hydrate fills in the default of the schema")
	} else {
		vr.Assert(okd == (w.hasd && w.d != w.def[sch]), "dehydrate removes what is the default of the schema")
		vr.Assert(!okd || d == w.d, "dehydrate keeps what is not the default")
	}
}

// H_Hydrate: hydrate.
func H_Hydrate() { zzHyd("hydrate") }

// H_Dehydrate: dehydrate.
func H_Dehydrate() { zzHyd("dehydrate") }

// H_Translate: translate gives what the library does.
func H_Translate() {
	where := vr.Choice("where", 2)
	format := where
	if vr.Bound(0, 1) == 1 {
		format = vr.Choice("format", 2)
	}
	w, args := zzSetup("translate", where, format, vr.Choice("place", vr.Bound(1, 2)))
	v, args := zzVersion(args, "--to")
	o, e, c := zzRun(args...)
	vr.Reach("ran")
	zzUntouched()
	if v == len(zzVers) {
		vr.Assert(c != 0, "translate needs a version")
		return
	}
	lin, err := kit.Bind(rt, w.src, thema.SkipBuggyChecks())
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	inst := lin.ValidateAny(kit.Data(rt, w.dat))
	vr.Assert((inst != nil) == (w.acc[0] || w.acc[1] || w.acc[2]), "some schema accepts the data")
	if inst == nil {
		vr.Assert(c != 0 && o == "" && e != "", "translate says that the data is not valid for any schema")
		return
	}
	sv, _ := thema.ParseSyntacticVersion(zzVers[v])
	tinst, lac, err := inst.Translate(sv)
	vr.Assert((c == 0) == (err == nil), "translate exits 0 exactly if the translation succeeds")
	if err != nil {
		vr.Assert(o == "" && e != "", "translate says why the translation fails")
		return
	}
	vr.Assert(e == "", "nothing is printed on stderr")
	out := kit.Data(rt, o)
	vr.Assert(out.Err() == nil, "the output is JSON")
	str := func(p string) string { s, _ := out.LookupPath(cue.ParsePath(p)).String(); return s }
	vr.Assert(str("from") == inst.Schema().Version().String(), "translate prints the version the data is valid for")
	vr.Assert(str("to") == zzVers[v], "translate prints the version asked for")
	for _, p := range []string{"x", "d"} {
		a, oka := kit.Int(out, "result."+p)
		b, okb := kit.Int(tinst.Underlying(), p)
		vr.Assert(oka == okb && a == b, "translate prints the translated data")
	}
	n, m := 0, 0
	if lac != nil {
		m = len(lac.AsList())
	}
	it, err := out.LookupPath(cue.ParsePath("lacunas")).List()
	for err == nil && it.Next() {
		k := 0
		for jt, err := it.Value().LookupPath(cue.ParsePath("lacunas")).List(); err == nil && jt.Next(); k++ {
			msg, _ := jt.Value().LookupPath(cue.ParsePath("message")).String()
			vr.Assert(msg == "m", "the lacunas printed are those of the lens")
		}
		n += k
	}
	vr.Assert(n == m, "translate prints the lacunas")
}

// H_Format: the format of the data is recognised, or is the one asked for.
func H_Format() {
	vos.Reset(nil, false)
	x := vr.Int("x", 100, 999)
	up := vr.Int("up", 100, 999)
	texts := []string{
		"{\"x\": " + vr.Lit(x) + "}\n", // JSON, and YAML
		"x: " + vr.Lit(x) + "\n",       // YAML
		"{\"x\": " + vr.Lit(x) + "\n",  // neither
		"x: [" + vr.Lit(x) + "\n",      // neither
	}
	t := vr.Choice("text", len(texts))
	isj, isy := t == 0, t <= 1
	exts := []string{".json", ".yaml", ".yml", ""}
	args := []string{"data", "validate", "-l", "/vfs/lin.cue"}
	ext := vr.Choice("ext", len(exts)+1)
	if ext == len(exts) {
		vos.Reset([]byte(texts[t]), true)
	} else {
		vos.Put("/vfs/data"+exts[ext], []byte(texts[t]))
		args = append(args, "/vfs/data"+exts[ext])
	}
	vos.Put("/vfs/lin.cue", []byte("name: \"test\"\nschemas: [{version: [0, 0], schema: {x: int & <"+vr.Lit(up)+"}}]\n"))
	forms := []string{"", "json", "yaml", "xml"}
	f := vr.Choice("format", len(forms))
	if f > 0 {
		args = append(args, "-e", forms[f])
	}
	o, e, c := zzRun(args...)
	vr.Reach("ran")
	want := x < up
	switch f {
	case 0:
		want = want && isy
	case 1:
		want = want && isj && (ext == 0 || ext == 4)
	case 2:
		want = want && isy && (ext == 1 || ext == 2 || ext == 4)
	case 3:
		want = false
	}
	vr.Assert((c == 0) == want, "data is accepted exactly if it has the format, and is valid")
	vr.Assert(o == "" && (e == "") == want, "the tool says what is wrong")
	zzUntouched()
}

// H_Bad: what cannot be done is an error, and not a crash.
func H_Bad() {
	vos.Reset(nil, false)
	x := vr.Int("x", 100, 999)
	lin := "name: \"test\"\nschemas: [{version: [0, 0], schema: {x: int}}]\n"
	dat := "{\"x\": " + vr.Lit(x) + "}"
	cmd := []string{"validate", "validate-any", "translate", "hydrate", "dehydrate"}[vr.Choice("cmd", 5)]
	to := []string{}
	if cmd == "translate" {
		to = []string{"--to", "0.0"}
	}
	args := []string{"data", cmd}
	switch vr.Choice("bad", 11) {
	case 0: // all is well
		args = append(append(args, "-l", "/vfs/lin.cue", "/vfs/data.json"), to...)
		vos.Put("/vfs/lin.cue", []byte(lin))
		vos.Put("/vfs/data.json", []byte(dat))
		_, e, c := zzRun(args...)
		vr.Assert(c == 0 && e == "", "the tool does what it can")
		zzUntouched()
		return
	case 1: // no data
		vos.Put("/vfs/lin.cue", []byte(lin))
		args = append(append(args, "-l", "/vfs/lin.cue", "/vfs/data.json"), to...)
	case 2: // no data at all
		vos.Put("/vfs/lin.cue", []byte(lin))
		args = append(append(args, "-l", "/vfs/lin.cue"), to...)
	case 3: // no lineage file
		vos.Put("/vfs/data.json", []byte(dat))
		args = append(append(args, "-l", "/vfs/lin.cue", "/vfs/data.json"), to...)
	case 4: // no lineage asked for
		vos.Put("/vfs/lin.cue", []byte(lin))
		vos.Put("/vfs/data.json", []byte(dat))
		args = append(append(args, "/vfs/data.json"), to...)
	case 5: // no such version
		vos.Put("/vfs/lin.cue", []byte(lin))
		vos.Put("/vfs/data.json", []byte(dat))
		args = append(args, "-l", "/vfs/lin.cue", "/vfs/data.json", "-v", "0."+vr.Lit(x))
	case 6: // no version
		vos.Put("/vfs/lin.cue", []byte(lin))
		vos.Put("/vfs/data.json", []byte(dat))
		args = append(args, "-l", "/vfs/lin.cue", "/vfs/data.json", "-v", "v"+vr.Lit(x))
	case 7: // not CUE
		vos.Put("/vfs/lin.cue", []byte("name: {"+vr.Lit(x)))
		vos.Put("/vfs/data.json", []byte(dat))
		args = append(append(args, "-l", "/vfs/lin.cue", "/vfs/data.json"), to...)
	case 8: // no lineage
		vos.Put("/vfs/lin.cue", []byte("name: "+vr.Lit(x)+"\n"))
		vos.Put("/vfs/data.json", []byte(dat))
		args = append(append(args, "-l", "/vfs/lin.cue", "/vfs/data.json"), to...)
	case 9: // no such path
		vos.Put("/vfs/lin.cue", []byte(lin))
		vos.Put("/vfs/data.json", []byte(dat))
		args = append(append(args, "-l", "/vfs/lin.cue", "-p", "nope", "/vfs/data.json"), to...)
	case 10: // the data is a directory
		vos.Put("/vfs/lin.cue", []byte(lin))
		vos.Put("/vfs/data/data.json", []byte(dat))
		args = append(append(args, "-l", "/vfs/lin.cue", "/vfs/data"), to...)
	}
	o, e, c := zzRun(args...)
	vr.Reach("failed")
	vr.Assert(c == 1 && o == "" && e != "", "the tool says what it cannot do, and exits 1")
	zzUntouched()
}
