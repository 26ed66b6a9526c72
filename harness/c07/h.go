// C07: ValidateAny picks the oldest schema the data conforms to.
package c07

import (
	"github.com/grafana/thema"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

// a lineage whose schemas accept ranges of x chosen by the solver
func H_Oldest() {
	shapes := kit.Shapes(vr.Bound(8, 15))
	sh := shapes[vr.Choice("shape", len(shapes))]
	vs := kit.Versions(sh)
	base, hi := 100, 999 // three digits: error texts have one shape
	lo, up := make([]int, len(vs)), make([]int, len(vs))
	src := "name: \"test\"\nschemas: ["
	for i, v := range vs {
		lo[i], up[i] = vr.Int("lo"+kit.Itoa(i), base, hi), vr.Int("up"+kit.Itoa(i), base, hi)
		vr.Assume(lo[i] < up[i])
		src += "{version: " + kit.Ver(v) + ", schema: {x: int & >=" + vr.Lit(lo[i]) + " & <" + vr.Lit(up[i]) + "}},\n"
	}
	lin, err := kit.Bind(rt, src+"]\nlenses: []\n", thema.SkipBuggyChecks())
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	x := vr.Int("x", base, hi)
	dv := kit.Data(rt, "{x: "+vr.Lit(x)+"}")
	inst := lin.ValidateAny(dv)
	for i, v := range vs {
		if lo[i] <= x && x < up[i] {
			vr.Reach("match")
			vr.Assert(inst != nil, "data that conforms to some schema is accepted")
			if inst != nil {
				vr.Assert(inst.Schema().Version() == v, "the oldest conforming schema is chosen")
				vr.Assert(inst.Underlying() == dv, "the instance carries the data unchanged")
			}
			return
		}
	}
	vr.Reach("none")
	vr.Assert(inst == nil, "data that conforms to no schema gives nil")
}

// schemas told apart by shape
func H_Shapes() {
	shapes := kit.Shapes(vr.Bound(11, 15))
	sh := shapes[vr.Choice("shape", len(shapes))]
	vs := kit.Versions(sh)
	lin, err := kit.Bind(rt, kit.LinSrc(vs, nil))
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	m, o := vr.Int("m", 0, 5), vr.Choice("o", 4)
	data := "{x: 1, m: " + vr.Lit(m)
	if o > 0 {
		data += ", o" + kit.Itoa(o) + ": " + vr.Lit(vr.Int("ov", 0, 9))
	}
	inst := lin.ValidateAny(kit.Data(rt, data+"}"))
	for _, v := range vs {
		if int(v[0]) == m && int(v[1]) >= o {
			vr.Reach("match")
			vr.Assert(inst != nil && inst.Schema().Version() == v, "the oldest conforming schema is chosen")
			return
		}
	}
	vr.Reach("none")
	vr.Assert(inst == nil, "data that conforms to no schema gives nil")
}
