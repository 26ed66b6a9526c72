// C04: looking up schemas in a lineage.
package c04

import (
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

func lineage() (thema.Lineage, []thema.SyntacticVersion, []int) {
	shapes := kit.Shapes(vr.Bound(12, 15))
	sh := shapes[vr.Choice("shape", len(shapes))]
	vs := kit.Versions(sh)
	lin, err := kit.Bind(rt, kit.LinSrc(vs, nil))
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	return lin, vs, sh
}

// Schema on any version whatever
func H_Schema() {
	lin, vs, _ := lineage()
	hi := uint64(vr.Bound(99, 99999))
	v := thema.SV(uint(vr.Uint("maj", 0, hi)), uint(vr.Uint("min", 0, hi)))
	sch, err := lin.Schema(v)
	want := false
	for _, x := range vs {
		if x == v {
			want = true
		}
	}
	if want {
		vr.Reach("exists")
		vr.Assert(err == nil, "existing versions are found")
		vr.Assert(sch != nil && sch.Version() == v, "the schema found has the version asked for")
		if sch != nil {
			vr.Assert(sch.Lineage() == lin, "the schema belongs to the lineage")
			m, ok := kit.Int(sch.Underlying(), "schema.m")
			vr.Assert(ok && m == int(v[0]), "the schema found is the one declared with that version")
		}
	} else {
		vr.Reach("absent")
		vr.Assert(err != nil && sch == nil, "versions not in the lineage are not found")
		vr.Assert(err == nil || errors.Is(err, terrors.ErrVersionNotExist), "absence is reported as ErrVersionNotExist")
	}
	p := vr.Call(func() { sch = thema.SchemaP(lin, v) })
	vr.Assert(p == !want, "SchemaP panics exactly when Schema fails")
	vr.Observe("want", want)
}

func H_Ends() {
	lin, vs, _ := lineage()
	last := vs[len(vs)-1]
	vr.Assert(lin.First().Version() == thema.SV(0, 0), "First is 0.0")
	vr.Assert(lin.Latest().Version() == last, "Latest is the last version")
	vr.Assert(thema.LatestVersion(lin) == last, "LatestVersion is the last version")
	all := lin.All()
	vr.Assert(len(all) == len(vs), "All has every schema")
	for i, s := range all {
		vr.Assert(i < len(vs) && s.Version() == vs[i], "All is in version order")
		got, err := lin.Schema(s.Version())
		vr.Assert(err == nil && got == s, "All and Schema agree")
	}
	// the caller may change what All returned
	all[0] = nil
	vr.Assert(lin.First() != nil && lin.All()[0] != nil, "All returns a copy")
	vr.Assert(lin.Name() == "test", "Name is the declared name")
	vr.Assert(lin.Runtime() == rt, "Runtime is the one bound with")
	vr.Reach("end")
}

func H_Sequence() {
	lin, _, sh := lineage()
	q := uint(vr.Uint("seq", 0, uint64(vr.Bound(999, 99999))))
	v, err := thema.LatestVersionInSequence(lin, q)
	if q < uint(len(sh)) {
		vr.Reach("exists")
		vr.Assert(err == nil, "existing sequences are found")
		n := 0
		for i, c := range sh {
			if uint(i) == q {
				n = c
			}
		}
		vr.Assert(v == thema.SV(q, uint(n-1)), "the latest version of the sequence is returned")
	} else {
		vr.Reach("absent")
		vr.Assert(err != nil && errors.Is(err, terrors.ErrVersionNotExist), "absent sequences are reported as ErrVersionNotExist")
	}
}
