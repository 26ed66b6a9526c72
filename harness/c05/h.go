// C05: walking a lineage from schema to schema.
package c05

import (
	"github.com/grafana/thema"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

func lineage() (thema.Lineage, []thema.SyntacticVersion, []int) {
	shapes := kit.Shapes(vr.Bound(13, 15))
	sh := shapes[vr.Choice("shape", len(shapes))]
	vs := kit.Versions(sh)
	lin, err := kit.Bind(rt, kit.LinSrc(vs, nil))
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	return lin, vs, sh
}

func H_Nav() {
	lin, vs, sh := lineage()
	v := thema.SV(uint(vr.Uint("maj", 0, 5)), uint(vr.Uint("min", 0, 5)))
	sch, err := lin.Schema(v)
	if err != nil {
		return
	}
	i := -1
	for k, x := range vs {
		if x == v {
			i = k
		}
	}
	vr.Assert(i >= 0, "a schema found is in the lineage")
	vr.Assume(i >= 0)
	vr.Reach("schema")
	succ, pred := sch.Successor(), sch.Predecessor()
	if i == len(vs)-1 {
		vr.Assert(succ == nil, "the last schema has no successor")
	} else {
		vr.Assert(succ != nil && succ.Version() == vs[i+1], "the successor is the next version")
		if succ != nil {
			vr.Assert(succ.Predecessor() == sch, "predecessor inverts successor")
			vr.Assert(succ.Lineage() == sch.Lineage(), "the successor is in the same lineage")
		}
	}
	if i == 0 {
		vr.Assert(pred == nil, "the first schema has no predecessor")
	} else {
		vr.Assert(pred != nil && pred.Version() == vs[i-1], "the predecessor is the previous version")
		if pred != nil {
			vr.Assert(pred.Successor() == sch, "successor inverts predecessor")
		}
	}
	last := sch.LatestInMajor()
	vr.Assert(last != nil && last.Version() == thema.SV(vs[i][0], uint(sh[vs[i][0]]-1)), "LatestInMajor is the newest schema of the same major version")
	vr.Observe("v", v.String())
}

// walking end to end visits every schema once
func H_Walk() {
	lin, vs, _ := lineage()
	n := 0
	for s := lin.First(); s != nil && n <= len(vs); s = s.Successor() {
		vr.Assert(n < len(vs) && s.Version() == vs[n], "walking forward visits the versions in order")
		n++
	}
	vr.Assert(n == len(vs), "walking forward visits every schema")
	for s := lin.Latest(); s != nil && n >= 0; s = s.Predecessor() {
		n--
		vr.Assert(n >= 0 && s.Version() == vs[n], "walking backward visits the versions in reverse order")
	}
	vr.Assert(n == 0, "walking backward visits every schema")
	vr.Reach("end")
}
