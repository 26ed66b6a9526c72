// C25: the functions of thema's CUE package agree with the Go API.
package c25

import (
	"cuelang.org/go/cue"
	"github.com/grafana/thema"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

func call(fn string, args map[string]cue.Value, order ...string) cue.Value {
	v := rt.Underlying().LookupPath(cue.ParsePath(fn))
	for _, a := range order {
		v = v.FillPath(cue.ParsePath(a), args[a])
	}
	return v.LookupPath(cue.ParsePath("out"))
}

func version(v cue.Value) (thema.SyntacticVersion, bool) {
	var sv thema.SyntacticVersion
	err := v.Decode(&sv)
	return sv, err == nil
}

// H_Search: the search functions find the oldest schema that accepts.
func H_Search() {
	shapes := kit.Shapes(vr.Bound(6, 10))
	vs := kit.Versions(shapes[vr.Choice("shape", len(shapes))])
	src := "name: \"test\"\nschemas: ["
	up := make([]int, len(vs))
	for i, v := range vs {
		up[i] = vr.Int("up"+kit.Itoa(i), 100, 999)
		src += "{version: " + kit.Ver(v) + ", schema: {x: int & <" + vr.Lit(up[i]) + ", s: string}},\n"
	}
	lin, err := kit.Bind(rt, src+"]\nlenses: []\n", thema.SkipBuggyChecks())
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	x := vr.Int("x", 100, 999)
	args := map[string]cue.Value{"lin": lin.Underlying(), "inst": kit.Data(rt, "{x: "+vr.Lit(x)+", s: \"t\"}")}
	got := lin.ValidateAny(args["inst"])
	want := -1
	for i := len(vs) - 1; i >= 0; i-- {
		if x < up[i] {
			want = i
		}
	}
	if vr.Choice("fn", 2) == 0 {
		out := call("#ValidFor", args, "lin", "inst")
		v, ok := version(out)
		vr.Assert(ok == (want >= 0) && ok == (got != nil), "#ValidFor finds a version exactly if some schema accepts")
		if ok && want >= 0 && got != nil {
			vr.Assert(v == vs[want] && v == got.Schema().Version(), "#ValidFor finds the oldest schema that accepts, as ValidateAny does")
		}
		return
	}
	out := call("#SearchAndValidate", args, "lin", "inst")
	vr.Assert((out.Err() == nil) == (want >= 0), "#SearchAndValidate finds a schema exactly if one accepts")
	if out.Err() != nil || want < 0 {
		return
	}
	v, ok := version(out.LookupPath(cue.ParsePath("v")))
	vr.Assert(ok && v == vs[want], "#SearchAndValidate finds the oldest schema that accepts")
	gx, ok := kit.Int(out.LookupPath(cue.ParsePath("inst")), "x")
	s, err := out.LookupPath(cue.ParsePath("inst.s")).String()
	vr.Assert(ok && gx == x && err == nil && s == "t", "#SearchAndValidate returns the data")
	name, err := out.LookupPath(cue.ParsePath("lin.name")).String()
	vr.Assert(err == nil && name == "test", "#SearchAndValidate returns the lineage")
}

// H_Latest: #LatestVersion is the version of the latest schema.
func H_Latest() {
	shapes := kit.Shapes(vr.Bound(9, 15))
	vs := kit.Versions(shapes[vr.Choice("shape", len(shapes))])
	n := vr.Lit(vr.Int("n", 100, 999))
	lin, err := kit.Bind(rt, kit.LinSrc(vs, nil)+"joinSchema: {x: int & <="+n+"}\n")
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	v, ok := version(lin.Underlying().LookupPath(cue.ParsePath("#LatestVersion")))
	vr.Assert(ok && v == lin.Latest().Version() && v == vs[len(vs)-1], "#LatestVersion is the version of the latest schema")
	at := vr.Choice("at", len(vs))
	flat := lin.Underlying().LookupPath(cue.MakePath(cue.Hid("_flatidx", "github.com/grafana/thema")))
	i, err := flat.FillPath(cue.ParsePath("v"), vs[at]).LookupPath(cue.ParsePath("out")).Int64()
	vr.Assert(err == nil && int(i) == at, "the index of a version is its place in the lineage")
}

// H_Translate: #Translate called from CUE does what Instance.Translate does.
func H_Translate() {
	shapes := kit.Shapes(vr.Bound(5, 10))
	vs := kit.Versions(shapes[vr.Choice("shape", len(shapes))])
	at, to := vr.Choice("at", len(vs)), vr.Choice("to", len(vs))
	var adds []string
	for k := range kit.LensPairs(vs) {
		adds = append(adds, vr.Lit(vr.Int("add"+kit.Itoa(k), 100, 199)))
	}
	lin, err := kit.Bind(rt, kit.LinSrc(vs, adds))
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	x := vr.Int("x", 100, 199)
	data := kit.Data(rt, "{x: "+vr.Lit(x)+", m: "+kit.Itoa(int(vs[at][0]))+"}")
	in, err := lin.All()[at].Validate(data)
	vr.Assert(err == nil, "the data is valid")
	vr.Assume(err == nil)
	tr, _, err := in.Translate(vs[to])
	vr.Assert(err == nil, "the data translates")
	vr.Assume(err == nil)
	ctx := rt.Context()
	args := map[string]cue.Value{"lin": lin.Underlying(), "inst": data, "from": ctx.CompileString(kit.Ver(vs[at])), "to": ctx.CompileString(kit.Ver(vs[to]))}
	order := []string{"inst", "to", "from", "lin"}
	if vr.Choice("order", 2) == 1 {
		order = []string{"lin", "from", "to", "inst"}
	}
	out := call("#Translate", args, order...)
	res := out.LookupPath(cue.ParsePath("result.result"))
	res, _ = res.Default()
	gx, ok1 := kit.Int(res, "x")
	wx, ok2 := kit.Int(tr.Underlying(), "x")
	vr.Assert(ok1 && ok2 && gx == wx, "#Translate gives what Instance.Translate gives")
	f, ok1 := version(out.LookupPath(cue.ParsePath("result.from")))
	t, ok2 := version(out.LookupPath(cue.ParsePath("result.to")))
	vr.Assert(ok1 && ok2 && f == vs[at] && t == vs[to], "#Translate tells the versions it started and ended at")
	n, err := out.LookupPath(cue.ParsePath("steps")).Len().Int64()
	d := to - at
	if d < 0 {
		d = -d
	}
	vr.Assert(err == nil && int(n) == d, "#Translate makes one step for each version on the way")
}

// H_Compare: _cmpSV orders versions as Less does.
func H_Compare() {
	l := thema.SV(uint(vr.Int("l0", 0, 999)), uint(vr.Int("l1", 0, 999)))
	r := thema.SV(uint(vr.Int("r0", 0, 999)), uint(vr.Int("r1", 0, 999)))
	ctx := rt.Context()
	lit := func(v thema.SyntacticVersion) cue.Value {
		return ctx.CompileString("[" + vr.Lit(int(v[0])) + ", " + vr.Lit(int(v[1])) + "]")
	}
	v := rt.Underlying().LookupPath(cue.MakePath(cue.Hid("_cmpSV", "github.com/grafana/thema")))
	o, err := v.FillPath(cue.ParsePath("l"), lit(l)).FillPath(cue.ParsePath("r"), lit(r)).LookupPath(cue.ParsePath("out")).Int64()
	vr.Assert(err == nil, "versions can be compared in CUE")
	want := int64(0)
	if l.Less(r) {
		want = -1
	} else if r.Less(l) {
		want = 1
	}
	vr.Assert(o == want, "versions compare in CUE as in Go")
}
