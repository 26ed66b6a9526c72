package dev

import (
	"cuelang.org/go/cue"
	"cuelang.org/go/cue/cuecontext"
	"github.com/grafana/thema"
	"github.com/grafana/thema/zz_verif/vr"
)

const src = `
name: "foo"
schemas: [{
	version: [0, 0]
	schema: { a: int, b?: int & <10 }
}, {
	version: [0, 1]
	schema: { a: int, b?: int & <10, c?: string }
}, {
	version: [1, 0]
	schema: { x: int }
}]
lenses: [{
	to: [0, 0]
	from: [0, 1]
	input: _
	result: { a: input.a }
}, {
	to: [0, 1]
	from: [1, 0]
	input: _
	result: { a: input.x }
}, {
	to: [1, 0]
	from: [0, 1]
	input: _
	result: { x: input.a + 1 }
}]
`

func H_Ctx() {
	ctx := cuecontext.New()
	v := ctx.CompileString("a: 1 + 2\nb: a < 4")
	i, err := v.LookupPath(cue.ParsePath("a")).Int64()
	vr.Observe("i", int(i))
	vr.Observe("e", err == nil)
	vr.Reach("end")
}

func H_RT() {
	ctx := cuecontext.New()
	rt := thema.NewRuntime(ctx)
	vr.Observe("ok", rt != nil)
}

var rt *thema.Runtime
var lin thema.Lineage
var ctx *cue.Context

func Setup_Bind() {
	ctx = cuecontext.New()
	rt = thema.NewRuntime(ctx)
}

func H_Bind() {
	v := ctx.CompileString(src)
	l, err := thema.BindLineage(v, rt)
	if err != nil {
		vr.Observe("err", err.Error())
		return
	}
	vr.Observe("ok", l != nil)
	sch, err := l.Schema(thema.SV(0, 0))
	vr.Observe("sch", err == nil)
	inst, err := sch.Validate(ctx.CompileString("{a: 4}"))
	vr.Observe("val", err == nil)
	if err != nil {
		vr.Observe("err", err.Error())
		return
	}
	t, lac, err := inst.Translate(thema.SV(1, 0))
	vr.Observe("tr", err == nil)
	if err != nil {
		vr.Observe("err", err.Error())
		return
	}
	vr.Observe("lac", lac != nil)
	b, err := t.Underlying().MarshalJSON()
	vr.Observe("out", string(b))
	_, err = sch.Validate(ctx.CompileString("{a: \"x\", b: 12}"))
	vr.Observe("val2", err == nil)
	vr.Observe("err", err.Error())
}
