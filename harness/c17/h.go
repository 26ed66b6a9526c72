// C17: every operation gives the runtime's lock back, whatever its outcome.
package c17

import (
	"errors"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/cuecontext"
	"github.com/grafana/thema"
	"github.com/grafana/thema/vmux"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var (
	rt   *thema.Runtime
	lin  thema.Lineage // CUE lenses
	glin thema.Lineage // Go lenses
	mode int           // what the Go lenses do
)

type T struct {
	X int64 `json:"x"`
}
type Bad struct {
	X string `json:"x"`
}

const two = "name: \"test\"\nschemas: [{version: [0, 0], schema: {x: int64 & <500}}, {version: [1, 0], schema: {x: int64 & >=300}}]\n"
const lenses = "lenses: [{to: [0, 0], from: [1, 0], input: _, result: {x: input.x - 250}}, {to: [1, 0], from: [0, 0], input: _, result: {x: input.x + 250}}]\n"

func Setup() {
	rt = kit.NewRT()
	var err error
	if lin, err = kit.Bind(rt, two+lenses); err != nil {
		panic(err)
	}
	mk := func(to, from thema.SyntacticVersion, add int) thema.ImperativeLens {
		return thema.ImperativeLens{To: to, From: from, Mapper: func(in *thema.Instance, s thema.Schema) (*thema.Instance, error) {
			x, _ := kit.Int(in.Underlying(), "x")
			switch mode {
			case 1:
				return nil, errors.New("no")
			case 2:
				panic("lens panics")
			case 3: // a lens that itself uses the runtime
				if _, err := kit.Bind(rt, two+lenses); err != nil {
					return nil, err
				}
			case 4:
				return in, nil
			}
			return s.Validate(kit.Data(rt, "{x: "+vr.Lit(x+add)+"}"))
		}}
	}
	a, b := thema.SV(0, 0), thema.SV(1, 0)
	if glin, err = kit.Bind(rt, two+"lenses: []\n", thema.ImperativeLenses(mk(a, b, -250), mk(b, a, 250))); err != nil {
		panic(err)
	}
}

func get(l thema.Lineage, i int) thema.Schema {
	return thema.SchemaP(l, thema.SV(uint(i), 0))
}

const nops = 23

// op runs one operation; x decides between success and failure.
func op(k, x int) (panicked bool) {
	val := "{x: " + vr.Lit(x) + "}"
	inst := func(l thema.Lineage) *thema.Instance {
		if in, err := get(l, 0).Validate(kit.Data(rt, val)); err == nil {
			return in
		}
		in, err := get(l, 1).Validate(kit.Data(rt, val))
		vr.Assert(err == nil, "every value is valid in one of the schemas")
		vr.Assume(err == nil)
		return in
	}
	switch k {
	case 0: // bad or good constraint
		kit.Bind(rt, "name: \"test\"\nschemas: [{version: [0, 0], schema: {x: int & <"+vr.Lit(x)+"}}, {version: [0, 1], schema: {x: int & <500}}]\nlenses: []\n")
	case 1: // refused at each stage of binding
		srcs := []string{"schemas: [{version: [0, 0], schema: {}}]", "name: \"test\"", "name: string\nschemas: [{version: [0, 0], schema: {}}]",
			"name: \"test\"\nschemas: []", "name: \"test\"\nschemas: [{version: [0, 1], schema: {}}]", "name: \"test\"\nschemas: [{version: [int, 1], schema: {}}]",
			"name: \"test\"\nschemas: [{version: [0, 0], schema: {a: 1 & 2}}]", "syntax error {{", "name: \"test\"\nschemas: 3",
			two + "lenses: [{to: [1, 0], from: [0, 0], input: _, result: {x: 1}}, {to: [0, 0], from: [1, 0], input: _, result: {x: 1}}]\n"}
		k := vr.Choice("src", len(srcs)+1)
		if k < len(srcs) {
			return vr.Call(func() { kit.Bind(rt, srcs[k]) })
		}
		return vr.Call(func() { thema.BindLineage(cue.Value{}, rt) })
	case 2:
		kit.Bind(rt, two+"lenses: []\n", thema.ImperativeLenses(thema.ImperativeLens{To: thema.SV(0, 0), From: thema.SV(1, 0)}))
	case 3:
		get(lin, vr.Choice("sch", 2)).Validate(kit.Data(rt, val))
	case 4:
		lin.ValidateAny(kit.Data(rt, "{x: "+vr.Lit(x)+", y: 1}"))
	case 5:
		// the lens result is out of range for some x
		inst(lin).Translate(thema.SV(uint(vr.Choice("to", 2)), 0))
	case 6:
		return vr.Call(func() { inst(lin).Translate(thema.SV(2, 0)) })
	case 7:
		mode = vr.Choice("mode", 5)
		in := inst(glin)
		p := vr.Call(func() { in.Translate(thema.SV(uint(vr.Choice("to", 2)), 0)) })
		mode = 0
		return p
	case 8:
		thema.AssignableTo(get(lin, 0), &T{})
		thema.AssignableTo(get(lin, 0), &Bad{})
	case 9:
		return vr.Call(func() { thema.AssignableTo(get(lin, 0), 3) })
	case 10:
		thema.BindType(get(lin, 0), Bad{})
		if ts, err := thema.BindType(get(lin, 1), T{}); err == nil {
			ts.NewT()
			if in, err := ts.ValidateTyped(kit.Data(rt, val)); err == nil {
				in.Value()
			}
		}
	case 11:
		inst(lin).Hydrate()
	case 12:
		inst(lin).Dehydrate()
	case 13:
		vmux.NewUntypedMux(get(lin, vr.Choice("sch", 2)), vmux.NewJSONCodec("d.json"))([]byte("{\"x\": " + vr.Lit(x) + "}"))
	case 14:
		vmux.NewByteMux(get(glin, vr.Choice("sch", 2)), vmux.NewJSONCodec("d.json"))([]byte("{\"x\": " + vr.Lit(x)))
	case 15:
		thema.IsAppendOnly(lin, glin)
	case 16:
		return vr.Call(func() { inst(lin).AsSuccessor() })
	case 17:
		return vr.Call(func() { inst(lin).AsPredecessor() })
	case 18:
		return vr.Call(func() { get(lin, 5) })
	case 19: // data from another context
		return vr.Call(func() { get(lin, 0).Validate(cuecontext.New().CompileString("{x: 3}")) })
	case 20: // data that is itself an error
		srcs := []string{"{x: 1 & 2}", "{x: ", "{x: y}", "{x: int}", "1 & 2", "3"}
		dv := kit.Data(rt, srcs[vr.Choice("data", len(srcs))])
		switch vr.Choice("by", 3) {
		case 0:
			return vr.Call(func() { get(lin, 0).Validate(dv) })
		case 1:
			return vr.Call(func() { lin.ValidateAny(dv) })
		}
		ts, _ := thema.BindType(get(lin, 1), T{})
		return vr.Call(func() { ts.ValidateTyped(dv) })
	case 21:
		return vr.Call(func() { get(lin, vr.Choice("sch", 2)).Validate(cue.Value{}) })
	case 22: // Go types that cannot be assigned to
		var p *T
		args := []any{nil, p, &p, struct {
			X chan int `json:"x"`
		}{}, struct {
			X complex64 `json:"x"`
		}{}, func() {}}
		k := vr.Choice("arg", len(args))
		return vr.Call(func() { thema.AssignableTo(get(lin, 0), args[k]) })
	}
	return false
}

// works checks that the runtime is still usable, for readers and writers.
func works(what string) {
	l, err := kit.Bind(rt, two+lenses)
	vr.Assert(err == nil, what+": a lineage still binds")
	if err != nil {
		return
	}
	in, err := l.First().Validate(kit.Data(rt, "{x: 120}"))
	vr.Assert(err == nil, what+": data still validates")
	if err != nil {
		return
	}
	out, _, err := in.Translate(thema.SV(1, 0))
	vr.Assert(err == nil, what+": an instance still translates")
	if err != nil {
		return
	}
	x, _ := kit.Int(out.Underlying(), "x")
	vr.Assert(x == 370, what+": the translation is right")
	vr.Assert(thema.AssignableTo(l.First(), &T{}) == nil, what+": assignability is still decided")
}

// any operation, with any outcome, then the runtime in use again
func H_Release() {
	k := vr.Choice("op", nops)
	x := vr.Int("x", 100, 999)
	vr.Contend(rt)
	p := false
	vr.Repeat(func() { p = op(k, x) })
	vr.Calm()
	works("after")
	if p {
		vr.Reach("panicked")
	} else {
		vr.Reach("returned")
	}
}
