// C26: what a lineage does never depends on what was done before.
package c26

import (
	"sort"

	"cuelang.org/go/cue"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/jsonschema"
	"github.com/grafana/thema/encoding/openapi"
	"github.com/grafana/thema/internal/astutil"
	"github.com/grafana/thema/vmux"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rts [2]*thema.Runtime

func Setup() { rts[0], rts[1] = kit.NewRT(), kit.NewRT() }

var vs = []thema.SyntacticVersion{{0, 0}, {0, 1}, {1, 0}}

// src is a lineage of 0.0, 0.1 and 1.0 that accepts x up to lim.
func src(name, lim, add string, min string) string {
	return "name: \"" + name + "\"\nschemas: [{version: [0, 0], schema: {x: int & <=" + lim + ", d: int | *5, n: s: \"p\" | \"q\"}, examples: ex: {x: 1, n: s: \"p\"}}," +
		"{version: [0, 1], schema: {x: int & <=" + lim + ", d: int | *5, n: s: \"p\" | \"q\", o?: int}}," +
		"{version: [1, 0], schema: {y: int & >=" + min + ", d: int | *6, #D: {z?: int}, r?: #D}}]\n" +
		"lenses: [{to: [0, 0], from: [0, 1], input: _, result: {x: input.x, d: input.d, n: s: input.n.s}}," +
		"{to: [0, 1], from: [1, 0], input: _, result: {x: input.y - " + add + ", d: input.d, n: s: \"q\"}, lacunas: [{condition: input.y > " + lim + ", message: \"m\", type: {name: \"Placeholder\", id: 1}}]}," +
		"{to: [1, 0], from: [0, 1], input: _, result: {y: input.x + " + add + ", d: input.d}}]\n"
}

type t00 struct {
	X int64 `json:"x"`
	D int64 `json:"d"`
	N struct {
		S string `json:"s"`
	} `json:"n"`
}
type t10 struct {
	Y int64 `json:"y"`
	D int64 `json:"d"`
}

// world is one copy of everything the operations work on.
type world struct {
	rt         *thema.Runtime
	val        cue.Value
	lin, other thema.Lineage
	data       [2]cue.Value // valid for 0.x if at all, and for 1.0
	in         [2]*thema.Instance
	text       string // the lineage's source
	oc         *openapi.Config
}

// outcome of an operation
type outcome struct {
	ok      bool
	n, m, k int
	v       thema.SyntacticVersion
	s       string
}

const ops = 18

func (w *world) inst(o *outcome, in *thema.Instance, err error) {
	if o.ok = err == nil && in != nil; !o.ok {
		if err != nil {
			o.s = err.Error()
		}
		return
	}
	o.v = in.Schema().Version()
	o.n, _ = kit.Int(in.Underlying(), "x")
	o.m, _ = kit.Int(in.Underlying(), "y")
	o.k, _ = kit.Int(in.Underlying(), "d")
}

func (w *world) do(op int) (o outcome) {
	sch := w.lin.All()
	switch op {
	case 0:
		in, err := sch[1].Validate(w.data[0])
		w.inst(&o, in, err)
	case 1:
		in, err := sch[2].Validate(w.data[0])
		w.inst(&o, in, err)
	case 2:
		w.inst(&o, w.lin.ValidateAny(w.data[1]), nil)
	case 3, 4:
		in, lac, err := w.in[op-3].Translate(vs[4-op])
		w.inst(&o, in, err)
		if err == nil {
			o.s = kit.Itoa(len(lac.AsList()))
		}
	case 5:
		w.inst(&o, w.in[0].Hydrate(), nil)
	case 6:
		w.inst(&o, w.in[1].Dehydrate(), nil)
	case 7:
		err := thema.AssignableTo(sch[2], t00{})
		o.ok = err == nil && thema.AssignableTo(sch[0], t00{}) == nil
	case 8:
		ts, err := thema.BindType[*t10](sch[2], &t10{})
		if o.ok = err == nil; o.ok {
			t := ts.NewT()
			o.n = int(t.D)
			t.D, t.Y = 1, 1
			if ti, err := thema.BindInstanceType[*t10](w.in[1], ts); err == nil {
				if t, err := ti.Value(); err == nil {
					o.m, o.k = int(t.D), int(t.Y)
					t.D = 2
				}
			}
		}
	case 9:
		o.ok = thema.IsAppendOnly(w.lin, w.other) == nil
	case 10:
		f, err := openapi.GenerateSchema(sch[0], w.oc)
		if o.ok = err == nil; o.ok {
			b, _ := astutil.FmtNode(f)
			o.s = string(b)
		}
	case 11:
		f, err := jsonschema.GenerateSchema(sch[2])
		if o.ok = err == nil; o.ok {
			b, _ := astutil.FmtNode(f)
			o.s = string(b)
		}
	case 16:
		f, err := openapi.GenerateSchema(sch[2], w.oc)
		if o.ok = err == nil; o.ok {
			b, _ := astutil.FmtNode(f)
			o.s = string(b)
		}
	case 17:
		f, err := openapi.GenerateSchema(w.other.First(), w.oc)
		if o.ok = err == nil; o.ok {
			b, _ := astutil.FmtNode(f)
			o.s = string(b)
		}
	case 12: // bind again
		lin, err := thema.BindLineage(w.val, w.rt)
		if o.ok = err == nil; o.ok {
			in, err := lin.Latest().Validate(w.data[1])
			w.inst(&o, in, err)
		}
	case 13: // bind what was bound
		lin, err := thema.BindLineage(w.lin.Underlying(), w.rt)
		if o.ok = err == nil; o.ok {
			in, err := lin.First().Validate(w.data[0])
			w.inst(&o, in, err)
		}
	case 14:
		exs := sch[0].Examples()
		var ns []string
		for n, in := range exs {
			ns = append(ns, n)
			w.inst(&o, in, nil)
		}
		sort.Strings(ns)
		for _, n := range ns {
			o.s += n + ";"
		}
	case 15:
		in, lac, err := vmux.NewUntypedMux(sch[0], vmux.NewJSONCodec("in.json"))([]byte("{\"y\": 7, \"d\": 1}"))
		w.inst(&o, in, err)
		if err == nil {
			o.n += 100 * len(lac.AsList())
		}
	}
	return o
}

// H_History: one operation (thorough: two) before, against none.
func H_History() {
	lim, add, min := vr.Int("lim", 500, 599), vr.Int("add", 100, 199), vr.Int("min", 100, 199)
	x, y := vr.Int("x", 400, 699), vr.Int("y", 600, 899)
	text := src("test", vr.Lit(lim), vr.Lit(add), vr.Lit(min))
	otext := src("test", vr.Lit(vr.Int("olim", 500, 599)), "1", vr.Lit(min))
	var ws [2]*world
	for i := range ws {
		w := &world{rt: rts[i], text: text, oc: &openapi.Config{}}
		w.val = w.rt.Context().CompileString(text, cue.Filename("lineage.cue"))
		var err error
		w.lin, err = thema.BindLineage(w.val, w.rt)
		vr.Assert(err == nil, "the lineage binds")
		vr.Assume(err == nil)
		w.other, err = kit.Bind(w.rt, otext)
		vr.Assert(err == nil, "the other lineage binds")
		vr.Assume(err == nil)
		w.data[0] = kit.Data(w.rt, "{x: "+vr.Lit(x)+", n: s: \"p\"}")
		w.data[1] = kit.Data(w.rt, "{y: "+vr.Lit(y)+", d: 6}")
		w.in[0], err = w.lin.First().Validate(kit.Data(w.rt, "{x: 450, d: 3, n: s: \"q\"}"))
		vr.Assume(err == nil)
		w.in[1], err = w.lin.Latest().Validate(w.data[1])
		vr.Assume(err == nil)
		ws[i] = w
	}
	if vr.Bound(0, 1) == 1 {
		first := []int{-1, 4, 8, 9, 12, 13}
		if op := first[vr.Choice("first", len(first))]; op >= 0 {
			ws[0].do(op)
		}
	}
	ws[0].do(vr.Choice("before", ops))
	probe := vr.Choice("probe", ops)
	a, b := ws[0].do(probe), ws[1].do(probe)
	vr.Assert(a.ok == b.ok, "an operation succeeds or fails whatever went before")
	vr.Assert(a.v == b.v && a.n == b.n && a.m == b.m && a.k == b.k, "an operation has the same result whatever went before")
	vr.Assert(a.s == b.s, "an operation tells the same whatever went before")
}
