// C19: lacunas, and lenses that do not deliver.
package c19

import (
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

var types = []string{"Placeholder", "DroppedField", "LossyFieldMapping", "ChangedDefault"}

type lac struct {
	ty       int
	msg      string
	src, dst int // -1: none
}

func val(f []thema.FieldRef) (int, bool) {
	if len(f) == 0 {
		return -1, true
	}
	if len(f) != 1 || f[0].Path != "x" {
		return 0, false
	}
	switch v := f[0].Value.(type) {
	case int:
		return v, true
	case int64:
		return int(v), true
	}
	return 0, false
}

// every lens emits up to three lacunas: one always, two if its input is below a limit
func H_Lacunas() {
	all := kit.Shapes(99)
	shapes := [][]int{all[1], all[2], all[4], all[5], all[6]}
	if vr.Bound(0, 1) == 1 {
		shapes = all[:10]
	}
	vs := kit.Versions(shapes[vr.Choice("shape", len(shapes))])
	pairs := kit.LensPairs(vs)
	lim := vr.Int("lim", 100, 399)
	x := vr.Int("x", 100, 399)
	src := "name: \"test\"\nschemas: ["
	for _, v := range vs {
		src += "{version: " + kit.Ver(v) + ", schema: " + kit.SchemaBody(v) + "},\n"
	}
	src += "]\nlenses: ["
	for k, p := range pairs {
		src += "{to: " + kit.Ver(vs[p[0]]) + ", from: " + kit.Ver(vs[p[1]]) + ", input: _, result: {m: " + kit.Itoa(int(vs[p[0]][0])) + ", x: input.x + 10}, lacunas: ["
		src += "{condition: input.x < " + vr.Lit(lim) + ", message: \"a" + kit.Itoa(k) + "\", type: " + lactype(k) + ", sourceFields: [{path: \"x\", value: input.x}]},\n"
		if k%2 == 0 {
			src += "{message: \"b" + kit.Itoa(k) + "\", type: " + lactype(k+1) + ", targetFields: [{path: \"x\", value: result.x}]},\n"
		}
		src += "{condition: input.x >= " + vr.Lit(lim) + ", message: \"c" + kit.Itoa(k) + "\", type: " + lactype(k+2) + ", sourceFields: [{path: \"x\", value: input.x}], targetFields: [{path: \"x\", value: result.x}]},\n"
		src += "]},\n"
	}
	src += "]\n"
	lin, err := kit.Bind(rt, src)
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	from, to := vr.Choice("from", len(vs)), vr.Choice("to", len(vs))
	in, err := thema.SchemaP(lin, vs[from]).Validate(kit.Data(rt, "{x: "+vr.Lit(x)+", m: "+kit.Itoa(int(vs[from][0]))+"}"))
	vr.Assert(err == nil, "the data is valid")
	vr.Assume(err == nil)
	var want []lac
	cur := x
	for at := from; at != to; {
		next := at + 1
		if to < at {
			next = at - 1
		}
		for k, p := range pairs {
			if p[0] == next && p[1] == at {
				if cur < lim {
					want = append(want, lac{k % 4, "a" + kit.Itoa(k), cur, -1})
				}
				if k%2 == 0 {
					want = append(want, lac{(k + 1) % 4, "b" + kit.Itoa(k), -1, cur + 10})
				}
				if cur >= lim {
					want = append(want, lac{(k + 2) % 4, "c" + kit.Itoa(k), cur, cur + 10})
				}
				cur += 10
			}
		}
		at = next
	}
	ti, lacs, err := in.Translate(vs[to])
	vr.Assert(err == nil && ti != nil, "translation succeeds")
	if err != nil {
		return
	}
	gx, _ := kit.Int(ti.Underlying(), "x")
	vr.Assert(gx == cur, "the translation is right")
	var got []thema.Lacuna
	if lacs != nil {
		got = lacs.AsList()
	}
	vr.Assert(len(got) == len(want), "one lacuna for each that applies, over the whole path")
	if len(got) != len(want) {
		return
	}
	for i, w := range want {
		vr.Assert(got[i].Message == w.msg, "lacunas come in the order of the lenses on the path")
		vr.Assert(int(got[i].Type) == w.ty+1, "a lacuna has the type its lens gives it")
		s, sok := val(got[i].SourceFields)
		d, dok := val(got[i].TargetFields)
		vr.Assert(sok && dok && s == w.src && d == w.dst, "a lacuna carries the fields and values it refers to")
	}
	if len(want) > 0 {
		vr.Reach("some")
	} else {
		vr.Reach("none")
	}
}

func lactype(k int) string {
	return "{name: \"" + types[k%4] + "\", id: " + kit.Itoa(k%4+1) + "}"
}

// lenses whose results are incomplete or invalid for some inputs
func H_LensErr() {
	all := kit.Shapes(99)
	shapes := [][]int{all[2], all[4], all[6]}
	if vr.Bound(0, 1) == 1 {
		shapes = append(shapes, all[5], all[7], all[10])
	}
	vs := kit.Versions(shapes[vr.Choice("shape", len(shapes))])
	pairs := kit.LensPairs(vs)
	lim := vr.Int("lim", 100, 399)
	x := vr.Int("x", 100, 399)
	faulty, kind := vr.Choice("lens", len(pairs)), vr.Choice("kind", 5)
	src := "name: \"test\"\nschemas: ["
	for _, v := range vs {
		src += "{version: " + kit.Ver(v) + ", schema: {x: int & <1000, m: " + kit.Itoa(int(v[0])) + "}},\n"
	}
	src += "]\nlenses: ["
	for k, p := range pairs {
		m, res := kit.Itoa(int(vs[p[0]][0])), "x: input.x"
		if k == faulty {
			c := "input.x < " + vr.Lit(lim)
			switch kind {
			case 0: // a field is left out
				res = "if " + c + " {x: input.x}"
			case 1: // a field is out of bounds
				res = "if " + c + " {x: input.x}, if !(" + c + ") {x: input.x + 1000}"
			case 2: // wrong kind
				res = "if " + c + " {x: input.x}, if !(" + c + ") {x: \"s\"}"
			case 3: // an excess field
				res = "x: input.x, if !(" + c + ") {zz: 1}"
			case 4: // not concrete
				res = "x: input.x, if " + c + " {m: " + m + "}, if !(" + c + ") {m: int, x: int}"
			}
		}
		src += "{to: " + kit.Ver(vs[p[0]]) + ", from: " + kit.Ver(vs[p[1]]) + ", input: _, result: {m: " + m + ", " + res + "}},\n"
	}
	lin, err := kit.Bind(rt, src+"]\n")
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	from, to := vr.Choice("from", len(vs)), vr.Choice("to", len(vs))
	in, err := thema.SchemaP(lin, vs[from]).Validate(kit.Data(rt, "{x: "+vr.Lit(x)+", m: "+kit.Itoa(int(vs[from][0]))+"}"))
	vr.Assert(err == nil, "the data is valid")
	vr.Assume(err == nil)
	used, again := false, false
	for at := from; at != to; {
		next := at + 1
		if to < at {
			next = at - 1
		}
		for k, p := range pairs {
			if p == [2]int{next, at} {
				again = again || used
				used = used || k == faulty
			}
		}
		at = next
	}
	bad := used && x >= lim && kind != 4
	// an excess field that a later lens drops again does no harm
	vr.Assume(kind != 3 || !again)
	ti, lac, err := in.Translate(vs[to])
	vr.Assert((err == nil) == !bad, "translation fails exactly when a lens on the path does not deliver a valid result")
	if err != nil {
		vr.Assert(ti == nil && lac == nil, "no result with an error")
		vr.Assert(errors.Is(err, terrors.ErrInvalidLens), "the error is ErrInvalidLens")
		if kind == 0 {
			vr.Assert(again || errors.Is(err, terrors.ErrLensIncomplete), "a result with a field left out is ErrLensIncomplete")
		}
		vr.Reach("failed")
		return
	}
	gx, _ := kit.Int(ti.Underlying(), "x")
	vr.Assert(gx == x && ti.Schema().Version() == vs[to], "the translation is right")
	vr.Reach("translated")
}
