// C02: BindLineage accepts exactly the lineages whose versions are contiguous
// from 0.0.
package c02

import (
	"github.com/cockroachdb/errors"

	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

func versions(n int, hi int) ([]thema.SyntacticVersion, []string) {
	vs := make([]thema.SyntacticVersion, n)
	txt := make([]string, n)
	for i := range vs {
		a, b := vr.Int("maj"+kit.Itoa(i), 0, hi), vr.Int("min"+kit.Itoa(i), 0, hi)
		vs[i] = thema.SV(uint(a), uint(b))
		txt[i] = "[" + vr.Lit(a) + ", " + vr.Lit(b) + "]"
	}
	return vs, txt
}

func check(n, hi int) {
	vs, txt := versions(n, hi)
	src := "name: \"test\"\nschemas: ["
	for i := range vs {
		src += "{version: " + txt[i] + ", schema: {x: int}},"
	}
	src += "]\nlenses: []"
	good := vs[0] == thema.SV(0, 0)
	for i := 1; i < n; i++ {
		p, c := vs[i-1], vs[i]
		good = good && (c[0] == p[0] && c[1] == p[1]+1 || c[0] == p[0]+1 && c[1] == 0)
	}
	lin, err := kit.Bind(rt, src, thema.SkipBuggyChecks())
	if err != nil {
		vr.Reach("rejected")
		vr.Assert(!good, "contiguous versions from 0.0 are accepted")
		vr.Assert(lin == nil, "no lineage with an error")
		vr.Assert(errors.Is(err, terrors.ErrInvalidSchemasOrder) || errors.Is(err, terrors.ErrInvalidLineage), "rejection is classified")
		return
	}
	vr.Reach("accepted")
	vr.Assert(good, "only contiguous versions from 0.0 are accepted")
	all := lin.All()
	vr.Assert(len(all) == n, "every declared schema is in the lineage")
	for i, s := range all {
		vr.Assert(s.Version() == vs[i], "schemas carry their declared versions, in order")
	}
}

func H_One()   { check(1, 1000) }
func H_Two()   { check(2, 1000) }
func H_Three() { check(3, vr.Bound(5, 1000)) }

func H_Four() {
	// the first two are fixed so that the later ones are explored in depth
	hi := vr.Bound(3, 6)
	a, b := vr.Int("maj2", 0, hi), vr.Int("min2", 0, hi)
	c, d := vr.Int("maj3", 0, hi), vr.Int("min3", 0, hi)
	step := vr.Choice("step", 2)
	v1 := [2]int{0, 1}
	if step == 1 {
		v1 = [2]int{1, 0}
	}
	sch := func(x, y string) string { return "{version: [" + x + ", " + y + "], schema: {x: int}}," }
	src := "name: \"test\"\nschemas: [" + sch("0", "0") + sch(kit.Itoa(v1[0]), kit.Itoa(v1[1])) +
		sch(vr.Lit(a), vr.Lit(b)) + sch(vr.Lit(c), vr.Lit(d)) + "]\nlenses: []"
	next := func(p0, p1, c0, c1 int) bool { return c0 == p0 && c1 == p1+1 || c0 == p0+1 && c1 == 0 }
	good := next(v1[0], v1[1], a, b) && next(a, b, c, d)
	_, err := kit.Bind(rt, src, thema.SkipBuggyChecks())
	vr.Assert((err == nil) == good, "accepted exactly when contiguous")
	if err == nil {
		vr.Reach("accepted")
	} else {
		vr.Reach("rejected")
	}
}
