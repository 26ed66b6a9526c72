// C23: rewriting legacy lineages and making new ones.
package c23

import (
	"strings"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/ast"
	"cuelang.org/go/cue/build"
	"github.com/grafana/thema"
	cuenc "github.com/grafana/thema/encoding/cue"
	"github.com/grafana/thema/internal/astutil"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

func instance(src string) cue.Value {
	bi := build.NewContext().NewInstance("", nil)
	vr.Assert(bi.AddFile("in.cue", src) == nil, "the file parses")
	vr.Assert(bi.Complete() == nil, "the instance is complete")
	return rt.Context().BuildInstance(bi)
}

// schema is the body of version v, whose x is at most lim.
func schema(v thema.SyntacticVersion, lim string) string {
	s := "{x: int & <=" + lim + ", m: " + kit.Itoa(int(v[0])) + ", n: {b: int}"
	for i := 1; i <= int(v[1]); i++ {
		s += ", o" + kit.Itoa(i) + "?: int"
	}
	return s + "}"
}

// lens maps to major m.
func lens(m uint, add, lac string, style int) string {
	b := "from.n.b"
	if style == 1 {
		b = "from[\"n\"].b"
	} else if style == 2 {
		b = "from.n[\"b\"]"
	}
	return "rel: {m: " + kit.Itoa(int(m)) + ", x: from.x + " + add + ", n: b: " + b + " + " + add + "}\nlacunas: [if " + b + " > " + lac + " {message: \"lac\", type: {name: \"Placeholder\", id: 1}}]\n"
}

// legacy writes a legacy lineage with the given number of schemas per sequence.
func legacy(counts []int, lims, adds, lacs []string, style int) string {
	s := "name: \"test\"\nseqs: [\n"
	i, k := 0, 0
	for maj, n := range counts {
		s += "{schemas: ["
		for min := 0; min < n; min++ {
			s += schema(thema.SV(uint(maj), uint(min)), lims[i]) + ", "
			i++
		}
		s += "]\n"
		if maj > 0 {
			prev := counts[maj-1] - 1
			old, cur := "seqs["+kit.Itoa(maj-1)+"].schemas["+kit.Itoa(prev)+"]", "seqs["+kit.Itoa(maj)+"].schemas[0]"
			s += "lens: forward: {\nto: " + cur + "\nfrom: " + old + "\n" + lens(uint(maj), adds[k], lacs[k], style) + "}\n"
			s += "lens: reverse: {\nto: " + old + "\nfrom: " + cur + "\n" + lens(uint(maj-1), adds[k+1], lacs[k+1], style) + "}\n"
			k += 2
		}
		s += "},\n"
	}
	return s + "]\n"
}

func H_Rewrite() {
	shapes := kit.Shapes(vr.Bound(6, 10))
	how := vr.Choice("how", vr.Bound(4, 12)) // spelling of references, and where the lineage is
	style, where := how%3, how%4
	counts := shapes[vr.Choice("shape", len(shapes))]
	vs := kit.Versions(counts)
	var lim, add, lac []int
	var lims, adds, lacs []string
	top := vr.Int("lim", 800, 999)
	for range vs {
		lim = append(lim, top)
		lims = append(lims, vr.Lit(top))
	}
	for k := 0; k < 2*(len(counts)-1); k++ {
		add = append(add, vr.Int("add"+kit.Itoa(k), 100, 149))
		adds = append(adds, vr.Lit(add[k]))
		lac = append(lac, vr.Int("lac"+kit.Itoa(k), 100, 199))
		lacs = append(lacs, vr.Lit(lac[k]))
	}
	src := legacy(counts, lims, adds, lacs, style)
	path := ""
	switch where {
	case 1:
		src, path = "lin: {\n"+src+"}\nother: 3\n", "lin"
	case 2:
		src, path = "a: lin: {\n"+src+"}\nother: 3\n", "a.lin"
	case 3:
		src, path = "lin: base & {\n"+src+"}\nbase: {name: string, ...}\n", "lin"
	}
	f, err := cuenc.RewriteLegacyLineage(instance(src), cue.ParsePath(path))
	vr.Assert(err == nil, "a legacy lineage is rewritten")
	vr.Assume(err == nil)
	text, err := astutil.FmtNode(f)
	vr.Assert(err == nil, "the rewritten file can be printed")
	vr.Assume(err == nil)
	// lenses within a major did not exist before; they are left for the author to write
	out := strings.ReplaceAll(string(text), "_|_", "{m: input.m, x: input.x, n: b: input.n.b}")
	v := rt.Context().CompileString(out)
	vr.Assert(v.Err() == nil, "the rewritten file is valid")
	if path != "" {
		v = v.LookupPath(cue.ParsePath(path))
	}
	lin, err := thema.BindLineage(v, rt)
	vr.Assert(err == nil, "the rewritten lineage binds")
	vr.Assume(err == nil)
	all := lin.All()
	vr.Assert(lin.Name() == "test" && len(all) == len(vs), "the rewritten lineage has all schemas")
	at := vr.Choice("at", len(vs))
	to := vr.Choice("to", len(vs))
	for i, sch := range all {
		vr.Assert(sch.Version() == vs[i], "schemas keep their place")
	}
	// translate, starting from data the legacy schema at that place accepts
	x, b := vr.Int("x", 100, 299), vr.Int("b", 100, 299)
	d := "{m: " + kit.Itoa(int(vs[at][0])) + ", x: " + vr.Lit(x) + ", n: {b: " + vr.Lit(b) + "}"
	for i := 1; i <= int(vs[at][1]); i++ {
		d += ", o" + kit.Itoa(i) + ": 3"
	}
	in, err := all[at].Validate(kit.Data(rt, d+"}"))
	vr.Assert(err == nil, "rewritten schemas accept what the legacy schemas accepted")
	vr.Assume(err == nil)
	tr, lacunas, err := in.Translate(vs[to])
	vr.Assert(err == nil, "rewritten lenses work")
	vr.Assume(err == nil)
	wx, wb, nlac := x, b, 0
	for i := at; i < to; i++ {
		if vs[i][0] != vs[i+1][0] {
			k := 2 * int(vs[i][0])
			if wb > lac[k] {
				nlac++
			}
			wx, wb = wx+add[k], wb+add[k]
		}
	}
	for i := at; i > to; i-- {
		if vs[i][0] != vs[i-1][0] {
			k := 2*int(vs[i-1][0]) + 1
			if wb > lac[k] {
				nlac++
			}
			wx, wb = wx+add[k], wb+add[k]
		}
	}
	gx, ok1 := kit.Int(tr.Underlying(), "x")
	gb, ok2 := kit.Int(tr.Underlying(), "n.b")
	vr.Assert(ok1 && ok2 && gx == wx && gb == wb, "rewritten lenses map as before")
	vr.Assert(len(lacunas.AsList()) == nlac, "rewritten lacunas apply as before")
}

// H_Schemas: each schema keeps its own contents.
func H_Schemas() {
	shapes := kit.Shapes(7)
	counts := shapes[vr.Choice("shape", len(shapes))]
	vs := kit.Versions(counts)
	var lim []int
	var lims, adds []string
	for i, v := range vs {
		// within a major a field's limit can only grow
		lim = append(lim, vr.Int("lim"+kit.Itoa(i), 100, 299))
		if v[1] > 0 {
			vr.Assume(lim[i] >= lim[i-1])
		}
		lims = append(lims, vr.Lit(lim[i]))
		adds = append(adds, "1", "2")
	}
	f, err := cuenc.RewriteLegacyLineage(instance(legacy(counts, lims, adds, adds, 0)), cue.Path{})
	vr.Assert(err == nil, "a legacy lineage is rewritten")
	vr.Assume(err == nil)
	text, err := astutil.FmtNode(f)
	vr.Assert(err == nil, "the rewritten file can be printed")
	vr.Assume(err == nil)
	out := strings.ReplaceAll(string(text), "_|_", "{m: input.m, x: input.x, n: b: input.n.b}")
	lin, err := thema.BindLineage(rt.Context().CompileString(out), rt)
	vr.Assert(err == nil && len(lin.All()) == len(vs), "the rewritten lineage binds")
	vr.Assume(err == nil)
	at := vr.Choice("at", len(vs))
	x := vr.Int("x", 100, 299)
	sch, err := lin.Schema(vs[at])
	vr.Assert(err == nil, "the schema is there")
	vr.Assume(err == nil)
	_, err = sch.Validate(kit.Data(rt, "{m: "+kit.Itoa(int(vs[at][0]))+", x: "+vr.Lit(x)+", n: {b: 1}}"))
	vr.Assert((err == nil) == (x <= lim[at]), "rewritten schemas accept what the legacy schemas accepted")
}

// H_Refuse: what is no legacy lineage is refused, not mangled.
func H_Refuse() {
	n := vr.Lit(vr.Int("n", 100, 999))
	var v cue.Value
	path := ""
	switch vr.Choice("what", 6) {
	case 0:
		v = instance("a: " + n + "\n")
	case 1:
		v, path = instance("a: "+n+"\n"), "a"
	case 2:
		v, path = instance("a: "+n+"\n"), "b.c"
	case 3:
		v = instance("seqs: " + n + "\n")
	case 4:
		v = instance("seqs: [{schemas: " + n + "}]\n")
	case 5:
		v = rt.Context().CompileString("lin: {seqs: [{schemas: [{a: " + n + "}]}]}").LookupPath(cue.ParsePath("lin"))
	}
	f, err := cuenc.RewriteLegacyLineage(v, cue.ParsePath(path))
	vr.Assert(err != nil && f == nil, "what is no legacy lineage is refused")
}

// H_New: a new lineage made of a value has it as its schema 0.0.
func H_New() {
	lim, x, n := vr.Int("lim", 100, 299), vr.Int("x", 100, 299), vr.Int("n", 100, 199)
	l := vr.Lit(lim)
	var sch, data string
	switch vr.Choice("schema", 6) {
	case 0:
		sch, data = "{a: int & <="+l+"}", "{a: "+vr.Lit(x)+"}"
	case 1:
		sch, data = "{a?: int & <="+l+", b: string}", "{a: "+vr.Lit(x)+", b: \"s\"}"
	case 2:
		sch, data = "{#D: {a: int & <="+l+"}, d: #D}", "{d: {a: "+vr.Lit(x)+"}}"
	case 3:
		sch, data = "{l: [...int & <="+l+"]}", "{l: [1, "+vr.Lit(x)+"]}"
	case 4:
		sch, data = "{a: *"+l+" | string, b: int & <="+l+"}", "{b: "+vr.Lit(x)+"}"
	case 5:
		sch, data = "{m: {[string]: int & <="+l+"}}", "{m: {k: "+vr.Lit(x)+"}}"
	}
	name, pkg := "n"+kit.Itoa(n), []string{"", "mypkg"}[vr.Choice("pkg", 2)]
	f, err := cuenc.NewLineage(rt.Context().CompileString(sch), name, pkg)
	vr.Assert(err == nil, "a lineage is made")
	vr.Assume(err == nil)
	var rest []ast.Decl
	imports, embeds := 0, 0
	for _, d := range f.Decls {
		switch d.(type) {
		case *ast.Package:
		case *ast.ImportDecl:
			imports++
		case *ast.EmbedDecl:
			embeds++
		default:
			rest = append(rest, d)
		}
	}
	vr.Assert(f.PackageName() == pkg, "the file is in the named package")
	vr.Assert(imports == 1 && embeds == 1, "the file imports thema and embeds #Lineage")
	lin, err := thema.BindLineage(rt.Context().BuildFile(&ast.File{Decls: rest}), rt)
	vr.Assert(err == nil, "the new lineage binds")
	vr.Assume(err == nil)
	vr.Assert(lin.Name() == name && len(lin.All()) == 1 && lin.First().Version() == thema.SV(0, 0), "the new lineage has the given name and one schema, 0.0")
	_, err = lin.First().Validate(kit.Data(rt, data))
	vr.Assert((err == nil) == (x <= lim), "the new lineage's schema accepts what the given one accepts")
}
