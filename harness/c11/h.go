// C11: CUE lenses must be listed in ascending order by to, then from.
package c11

import (
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

func check(n, hi int) {
	to, from := make([]thema.SyntacticVersion, n), make([]thema.SyntacticVersion, n)
	src := kit.LinSrc(kit.Versions([]int{2, 2}), nil)
	src = src[:len(src)-2] // drop the closing bracket of lenses
	for i := range to {
		s := kit.Itoa(i)
		a, b := vr.Int("to0"+s, 0, hi), vr.Int("to1"+s, 0, hi)
		c, d := vr.Int("from0"+s, 0, hi), vr.Int("from1"+s, 0, hi)
		to[i], from[i] = thema.SV(uint(a), uint(b)), thema.SV(uint(c), uint(d))
		src += "{to: [" + vr.Lit(a) + ", " + vr.Lit(b) + "], from: [" + vr.Lit(c) + ", " + vr.Lit(d) + "], input: _, result: {x: input.x}},\n"
	}
	sorted := true
	for i := 1; i < n; i++ {
		p, c := to[i-1], to[i]
		pf, cf := from[i-1], from[i]
		le := p[0] < c[0] || p[0] == c[0] && (p[1] < c[1] || p[1] == c[1] && (pf[0] < cf[0] || pf[0] == cf[0] && pf[1] <= cf[1]))
		sorted = sorted && le
	}
	lin, err := kit.Bind(rt, src+"]\n")
	if err == nil {
		vr.Reach("accepted")
		vr.Assert(sorted, "lenses out of order are rejected")
		vr.Assert(lin != nil, "a lineage is returned")
		return
	}
	vr.Reach("rejected")
	vr.Assert(!sorted, "lenses in order are accepted")
	vr.Assert(lin == nil, "no lineage with an error")
	vr.Assert(errors.Is(err, terrors.ErrInvalidLensesOrder), "lenses out of order are reported as ErrInvalidLensesOrder")
}

func H_Two()   { check(2, 9) }
func H_Three() { check(3, vr.Bound(1, 3)) }
