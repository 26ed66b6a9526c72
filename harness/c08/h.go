// C08: translation with CUE lenses.
package c08

import (
	"github.com/grafana/thema"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

// translate from any version to any other of a lineage whose every explicit
// lens adds its own amount
func run(shapes [][]int, base, hi int) {
	sh := shapes[vr.Choice("shape", len(shapes))]
	vs := kit.Versions(sh)
	pairs := kit.LensPairs(vs)
	add := make([]int, len(pairs))
	txt := make([]string, len(pairs))
	for k := range pairs {
		add[k] = vr.Int("add"+kit.Itoa(k), base, hi)
		txt[k] = vr.Lit(add[k])
	}
	lin, err := kit.Bind(rt, kit.LinSrc(vs, txt))
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	from, to := vr.Choice("from", len(vs)), vr.Choice("to", len(vs))
	x := vr.Int("x", base, hi)
	data := "{x: " + vr.Lit(x) + ", m: " + kit.Itoa(int(vs[from][0]))
	o := 0
	if vs[from][1] > 0 {
		o = vr.Int("o", base, hi)
		data += ", o1: " + vr.Lit(o)
	}
	dv := kit.Data(rt, data+"}")
	inst, err := thema.SchemaP(lin, vs[from]).Validate(dv)
	vr.Assert(err == nil, "the data is valid at its version")
	vr.Assume(err == nil)

	want, keepO := x, vs[from][1] > 0
	for at := from; at != to; {
		next := at + 1
		if to < at {
			next = at - 1
		}
		for k, p := range pairs {
			if p[0] == next && p[1] == at {
				want += add[k]
				keepO = false
			}
		}
		at = next
	}
	ti, lac, err := inst.Translate(vs[to])
	vr.Assert(err == nil, "translation succeeds")
	if err != nil {
		return
	}
	vr.Assert(ti != nil && ti.Schema().Version() == vs[to], "the result is an instance of the target schema")
	got, ok := kit.Int(ti.Underlying(), "x")
	vr.Assert(ok && got == want, "the lenses on the path, and only those, are applied in sequence")
	m, ok := kit.Int(ti.Underlying(), "m")
	vr.Assert(ok && m == int(vs[to][0]), "the result has the target's form")
	g, ok := kit.Int(ti.Underlying(), "o1")
	vr.Assert(ok == keepO && (!ok || g == o), "implicit lenses keep every field; explicit ones only what they map")
	_, err = thema.SchemaP(lin, vs[to]).Validate(ti.Underlying())
	vr.Assert(err == nil, "the result validates against the target schema")
	vr.Assert(lac == nil || len(lac.AsList()) == 0, "no lacunas from lenses that declare none")
	xx, ok := kit.Int(inst.Underlying(), "x")
	vr.Assert(ok && xx == x && inst.Schema().Version() == vs[from], "the original instance is unchanged")
	vr.Observe("got", got)
	vr.Reach("end")
}

func H_Paths() { run(kit.Shapes(vr.Bound(9, 12)), 100, vr.Bound(199, 99999)) }

// four and more major versions
func H_Majors() {
	all := kit.Shapes(99)
	run(all[10:], 100, vr.Bound(199, 99999))
}
