// C10: translation with Go lenses.
package c10

import (
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

var errMapper = errors.New("mapper failed")

type call struct {
	from, to thema.SyntacticVersion
	inst     *thema.Instance
	x        int
}

func run(shapes [][]int, faults bool) {
	vs := kit.Versions(shapes[vr.Choice("shape", len(shapes))])
	pairs := kit.LensPairs(vs)
	if len(pairs) == 0 {
		return
	}
	add := make([]int, len(pairs))
	var calls []call
	fault, kind := -1, 0
	if faults {
		fault, kind = vr.Choice("fault", len(pairs)), vr.Choice("kind", 4)
	}
	var lenses []thema.ImperativeLens
	var lin thema.Lineage
	mk := func(v thema.SyntacticVersion, x int) *thema.Instance {
		in, err := thema.SchemaP(lin, v).Validate(kit.Data(rt, "{m: "+kit.Itoa(int(v[0]))+", x: "+vr.Lit(x)+"}"))
		vr.Assert(err == nil, "the mapped data is valid")
		return in
	}
	for k, p := range pairs {
		k, to, from := k, vs[p[0]], vs[p[1]]
		add[k] = vr.Int("add"+kit.Itoa(k), 100, 199)
		lenses = append(lenses, thema.ImperativeLens{To: to, From: from, Mapper: func(inst *thema.Instance, sch thema.Schema) (*thema.Instance, error) {
			x, _ := kit.Int(inst.Underlying(), "x")
			calls = append(calls, call{inst.Schema().Version(), sch.Version(), inst, x})
			vr.Assert(inst.Schema().Version() == from && sch.Version() == to, "each mapper gets an instance of its from version and its to schema")
			if k == fault {
				switch kind {
				case 0:
					return nil, errMapper
				case 1:
					return nil, nil
				case 2:
					return inst, nil // wrong version
				case 3:
					return mk(to, x+add[k]), errMapper
				}
			}
			return mk(to, x+add[k]), nil
		}})
	}
	// the order in which lenses are given does not matter
	if vr.Choice("reverse", 2) == 1 {
		for i, j := 0, len(lenses)-1; i < j; i, j = i+1, j-1 {
			lenses[i], lenses[j] = lenses[j], lenses[i]
		}
	}
	var err error
	lin, err = kit.Bind(rt, kit.LinSrc(vs, nil), thema.ImperativeLenses(lenses...))
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	from, to := vr.Choice("from", len(vs)), vr.Choice("to", len(vs))
	x := vr.Int("x", 100, 199)
	inst := mk(vs[from], x)

	want, failed := x, false
	var path []int
	for at := from; at != to && !failed; {
		next := at + 1
		if to < at {
			next = at - 1
		}
		for k, p := range pairs {
			if p[0] == next && p[1] == at {
				want += add[k]
				path = append(path, k)
				failed = k == fault
			}
		}
		at = next
	}
	ti, lac, err := inst.Translate(vs[to])
	vr.Assert(len(calls) == len(path), "exactly the mappers on the path run")
	for i, c := range calls {
		if i < len(path) {
			p := pairs[path[i]]
			vr.Assert(c.to == vs[p[0]] && c.from == vs[p[1]], "mappers run in path order")
		}
		vr.Assert(c.inst.Schema().Version() == c.from, "instances given to mappers keep their schema")
		xx, ok := kit.Int(c.inst.Underlying(), "x")
		vr.Assert(ok && xx == c.x, "instances given to mappers keep their data")
	}
	xx, ok := kit.Int(inst.Underlying(), "x")
	vr.Assert(ok && xx == x && inst.Schema().Version() == vs[from], "the original instance is unchanged")
	if failed {
		vr.Reach("failed")
		vr.Assert(err != nil && ti == nil && lac == nil, "a failing mapper fails the translation")
		if err != nil {
			vr.Assert(errors.Is(err, terrors.ErrInvalidLens), "translation errors are ErrInvalidLens")
			vr.Assert(kind == 1 || kind == 2 || errors.Is(err, errMapper), "the mapper's error is wrapped")
		}
		return
	}
	vr.Reach("ok")
	vr.Assert(err == nil, "translation succeeds")
	if err != nil {
		return
	}
	vr.Assert(ti.Schema().Version() == vs[to] && ti.Schema() == thema.SchemaP(lin, vs[to]), "the result is an instance of the target schema")
	got, ok := kit.Int(ti.Underlying(), "x")
	vr.Assert(ok && got == want, "the mappers on the path are composed in order")
	vr.Assert(lac == nil || len(lac.AsList()) == 0, "no lacunas")
	vr.Observe("got", got)
}

func H_Paths() {
	all := kit.Shapes(99)
	run(append(all[1:10:10], all[12]), false)
}

func H_Faults() {
	all := kit.Shapes(99)
	if vr.Bound(0, 1) == 0 {
		run([][]int{all[1], all[4], all[6]}, true)
		return
	}
	run(all[1:11], true)
}
