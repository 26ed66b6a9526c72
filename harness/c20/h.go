// C20: translation step by step, in one go, or with a stop on the way.
package c20

import (
	"github.com/grafana/thema"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

func start(shapes [][]int, golens bool) (lin thema.Lineage, vs []thema.SyntacticVersion, in *thema.Instance, from int) {
	vs = kit.Versions(shapes[vr.Choice("shape", len(shapes))])
	pairs := kit.LensPairs(vs)
	var txt []string
	var ls []thema.ImperativeLens
	for k, p := range pairs {
		k, to, from := k, vs[p[0]], vs[p[1]]
		add := vr.Int("add"+kit.Itoa(k), 100, 199)
		txt = append(txt, vr.Lit(add))
		ls = append(ls, thema.ImperativeLens{To: to, From: from, Mapper: func(in *thema.Instance, s thema.Schema) (*thema.Instance, error) {
			x, _ := kit.Int(in.Underlying(), "x")
			return s.Validate(kit.Data(rt, "{m: "+kit.Itoa(int(to[0]))+", x: "+vr.Lit(x+add)+"}"))
		}})
	}
	var opts []thema.BindOption
	if golens {
		txt = nil
		if len(ls) > 0 {
			opts = append(opts, thema.ImperativeLenses(ls...))
		}
	}
	lin, err := kit.Bind(rt, kit.LinSrc(vs, txt), opts...)
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	from = vr.Choice("from", len(vs))
	x := vr.Int("x", 100, 199)
	data := "{x: " + vr.Lit(x) + ", m: " + kit.Itoa(int(vs[from][0]))
	if vs[from][1] > 0 {
		data += ", o1: " + vr.Lit(vr.Int("o", 100, 199))
	}
	in, err = thema.SchemaP(lin, vs[from]).Validate(kit.Data(rt, data+"}"))
	vr.Assert(err == nil, "the data is valid")
	vr.Assume(err == nil)
	return
}

func same(a, b *thema.Instance) bool {
	if a.Schema().Version() != b.Schema().Version() {
		return false
	}
	for _, f := range []string{"x", "m", "o1", "o2"} {
		x, xok := kit.Int(a.Underlying(), f)
		y, yok := kit.Int(b.Underlying(), f)
		if x != y || xok != yok {
			return false
		}
	}
	return true
}

func steps(shapes [][]int, golens bool, n int) {
	lin, vs, in, at := start(shapes, golens)
	_ = lin
	for i := 0; i < n; i++ {
		var next *thema.Instance
		var err error
		up := vr.Choice("up"+kit.Itoa(i), 2) == 1
		to := at - 1
		if up {
			to = at + 1
		}
		vr.Assume(to >= 0 && to < len(vs))
		if up {
			next, _, err = in.AsSuccessor()
		} else {
			next, _, err = in.AsPredecessor()
		}
		vr.Assert(err == nil && next != nil, "a step succeeds")
		if err != nil || next == nil {
			return
		}
		tr, _, err := in.Translate(vs[to])
		vr.Assert(err == nil, "translation succeeds")
		if err != nil {
			return
		}
		vr.Assert(next.Schema().Version() == vs[to], "a step leads to the neighbouring version")
		vr.Assert(same(next, tr), "a step gives what translating to the neighbouring version gives")
		vr.Assert(in.Schema().Version() == vs[at], "the original instance is unchanged")
		_, err = next.Schema().Validate(next.Underlying())
		vr.Assert(err == nil, "the result of a step is valid at its version")
		in, at = next, to
	}
	x, _ := kit.Int(in.Underlying(), "x")
	vr.Observe("x", x)
	vr.Reach("end")
}

func compose(shapes [][]int, golens bool) {
	_, vs, in, from := start(shapes, golens)
	mid, to := vr.Choice("mid", len(vs)), vr.Choice("to", len(vs))
	vr.Assume(from <= mid && mid <= to || from >= mid && mid >= to)
	direct, _, err := in.Translate(vs[to])
	vr.Assert(err == nil, "translation succeeds")
	half, _, err2 := in.Translate(vs[mid])
	vr.Assert(err2 == nil, "translation part of the way succeeds")
	if err != nil || err2 != nil {
		return
	}
	rest, _, err := half.Translate(vs[to])
	vr.Assert(err == nil, "translation the rest of the way succeeds")
	if err != nil {
		return
	}
	vr.Assert(same(direct, rest), "stopping on the way does not change the result")
	again, _, err := in.Translate(vs[to])
	vr.Assert(err == nil && same(direct, again), "translating again gives the same result")
	vr.Reach("end")
}

func H_Steps() {
	all := kit.Shapes(99)
	if vr.Bound(0, 1) == 0 {
		steps([][]int{all[1], all[2], all[4]}, false, 2)
		return
	}
	steps(all[:9], false, 3)
}

func H_StepsGo() { steps(kit.Shapes(vr.Bound(9, 15)), true, vr.Bound(3, 4)) }

func H_Compose() {
	all := kit.Shapes(99)
	if vr.Bound(0, 1) == 0 {
		compose([][]int{all[4], all[5], all[6]}, false)
		return
	}
	compose(all[:11], false)
}

func H_ComposeGo() { compose(kit.Shapes(vr.Bound(12, 15)), true) }
