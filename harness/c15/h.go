// C15: version multiplexers.
package c15

import (
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/vmux"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

type T struct {
	X int64 `json:"x"`
	T int64 `json:"t"`
}

type out struct {
	v    thema.SyntacticVersion
	x, t int
	lac  int
	some bool // a result was returned
}

// mux runs one of the four kinds of multiplexer on b.
func mux(kind int, sch thema.Schema, codec vmux.Codec, b []byte) (o out, err error) {
	o.v = sch.Version()
	n := func(l thema.TranslationLacunas) int {
		if l == nil {
			return 0
		}
		return len(l.AsList())
	}
	switch kind {
	case 0:
		in, l, e := vmux.NewUntypedMux(sch, codec)(b)
		if err = e; in != nil {
			o.some, o.lac, o.v = true, n(l), in.Schema().Version()
			o.x, _ = kit.Int(in.Underlying(), "x")
			o.t, _ = kit.Int(in.Underlying(), "t")
		}
		return
	case 1:
		bb, l, e := vmux.NewByteMux(sch, codec)(b)
		if err = e; bb != nil {
			v, e := codec.Decode(rt.Context(), bb)
			vr.Assert(e == nil, "the output decodes")
			o.some, o.lac = true, n(l)
			o.x, _ = kit.Int(v, "x")
			o.t, _ = kit.Int(v, "t")
		}
		return
	}
	ts, e := thema.BindType(sch, &T{})
	vr.Assert(e == nil, "the type binds")
	vr.Assume(e == nil)
	if kind == 2 {
		in, l, e := vmux.NewTypedMux(ts, codec)(b)
		if err = e; in != nil {
			o.some, o.lac, o.v = true, n(l), in.Schema().Version()
			o.x, _ = kit.Int(in.Underlying(), "x")
			o.t, _ = kit.Int(in.Underlying(), "t")
			vr.Assert(in.TypedSchema() == ts, "the typed instance carries the typed schema")
		}
		return
	}
	v, l, e := vmux.NewValueMux(ts, codec)(b)
	if err = e; e == nil {
		o.some, o.lac, o.x, o.t = v != nil, n(l), int(v.X), int(v.T)
	}
	return
}

func lineage(vs []thema.SyntacticVersion, golens bool) (lin thema.Lineage, lo, up []int, pairs [][2]int) {
	lo, up = make([]int, len(vs)), make([]int, len(vs))
	src := "name: \"test\"\nschemas: ["
	for i, v := range vs {
		// any subset of the schemas accepts x: up[i] > x exactly in those
		lo[i], up[i] = 100, vr.Int("up"+kit.Itoa(i), 101, 999)
		src += "{version: " + kit.Ver(v) + ", schema: {x: int64 & <" + vr.Lit(up[i]) + ", t: int64}},\n"
	}
	src += "]\nlenses: ["
	pairs = kit.LensPairs(vs)
	opts := []thema.BindOption{thema.SkipBuggyChecks()}
	var ls []thema.ImperativeLens
	for k, p := range pairs {
		k, to := k, p[0]
		if !golens {
			src += "{to: " + kit.Ver(vs[p[0]]) + ", from: " + kit.Ver(vs[p[1]]) + ", input: _, result: {x: " + kit.Itoa(lo[to]) + ", t: input.t + " + kit.Itoa(1<<k) + "}},\n"
			continue
		}
		ls = append(ls, thema.ImperativeLens{To: vs[p[0]], From: vs[p[1]], Mapper: func(in *thema.Instance, s thema.Schema) (*thema.Instance, error) {
			t, _ := kit.Int(in.Underlying(), "t")
			return s.Validate(kit.Data(rt, "{x: "+kit.Itoa(lo[to])+", t: "+vr.Lit(t+1<<k)+"}"))
		}})
	}
	if golens && len(ls) > 0 {
		opts = append(opts, thema.ImperativeLenses(ls...))
	}
	lin, err := kit.Bind(rt, src+"]\n", opts...)
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	return
}

func run(shapes [][]int, golens bool, kinds int) {
	vs := kit.Versions(shapes[vr.Choice("shape", len(shapes))])
	lin, lo, up, pairs := lineage(vs, golens)
	to := vr.Choice("to", len(vs))
	kind := vr.Choice("kind", kinds)
	// every forward minor step keeps the data, so give it data that stays valid
	x, t0 := vr.Int("x", 100, 999), vr.Int("t", 100, 199)
	acc := func(i int) bool { return lo[i] <= x && x < up[i] }
	from := -1
	if acc(to) {
		from = to
	} else {
		for i := len(vs) - 1; i >= 0 && from < 0; i-- {
			if i != to && acc(i) {
				from = i
			}
		}
	}
	b := []byte("{\"x\": " + vr.Lit(x) + ", \"t\": " + vr.Lit(t0) + "}")
	codec := vmux.NewJSONCodec("data.json")
	if vr.Choice("yaml", 2) == 1 {
		codec = vmux.NewYAMLCodec("data.yaml")
		b = []byte("x: " + vr.Lit(x) + "\nt: " + vr.Lit(t0) + "\n")
	}
	o, err := mux(kind, thema.SchemaP(lin, vs[to]), codec, b)
	if from < 0 {
		vr.Reach("none")
		vr.Assert(err != nil && !o.some, "data valid against no version is an error")
		vr.Assert(err == nil || errors.Is(err, terrors.ErrInvalidData), "the error is ErrInvalidData")
		return
	}
	wx, wt := x, t0
	for at := from; at != to; {
		next := at + 1
		if to < at {
			next = at - 1
		}
		lensed := false
		for k, p := range pairs {
			if p[0] == next && p[1] == at {
				wx, wt, lensed = lo[next], wt+1<<k, true
			}
		}
		if !lensed {
			// an implicit step: valid by the compatibility rules, which these ranges may break
			vr.Assume(lo[next] <= wx && wx < up[next])
		}
		at = next
	}
	vr.Assert(err == nil, "data valid against some version is accepted")
	if err != nil {
		return
	}
	vr.Assert(o.some && o.v == vs[to], "the result is at the target version")
	vr.Assert(o.lac == 0, "no lacunas")
	vr.Observe("x", o.x)
	vr.Observe("t", o.t)
	if from == to {
		vr.Reach("own")
		vr.Assert(o.x == wx && o.t == wt, "data valid at the target version passes unchanged")
	} else {
		vr.Reach("other")
		vr.Assert(o.x == wx && o.t == wt, "other data is translated from the newest version it is valid against")
	}
}

func H_Pick() {
	all := kit.Shapes(99)
	if vr.Bound(0, 1) == 0 {
		run(all[:9], true, 4)
		return
	}
	run(all[:13], true, 4)
}

func H_PickCUE() {
	all := kit.Shapes(99)
	if vr.Bound(0, 1) == 0 {
		run([][]int{all[2], all[4], all[5]}, false, 4)
		return
	}
	run(all[:11], false, 4)
}

// arbitrary bytes: an error or a result, never a crash
func H_Bytes() {
	lin, err := kit.Bind(rt, "name: \"test\"\nschemas: [{version: [0, 0], schema: {a?: int}}]\nlenses: []\n")
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	n := vr.Choice("len", vr.Bound(3, 4))
	s := vr.Str("s", n, 0x20, 0x7e)
	in, _, err := vmux.NewUntypedMux(lin.First(), vmux.NewJSONCodec("data.json"))([]byte(s))
	want := n >= 2
	st := 0
	for i := 0; i < n; i++ {
		switch {
		case s[i] == ' ':
		case s[i] == '{' && st == 0:
			st = 1
		case s[i] == '}' && st == 1:
			st = 2
		default:
			want = false
		}
	}
	want = want && st == 2
	vr.Assert((err == nil) == want, "short texts are accepted exactly when they are an empty JSON object")
	vr.Assert((err == nil) == (in != nil), "a result or an error")
	if want {
		vr.Reach("object")
	}
}
