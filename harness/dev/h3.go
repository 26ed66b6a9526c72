package dev

import (
	"fmt"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/cuecontext"
	"github.com/grafana/thema"
	"github.com/grafana/thema/zz_verif/vr"
)

func H_SymCue() {
	x := vr.Int("x", 0, 1000)
	lo := vr.Int("lo", 0, 1000)
	ctx := cuecontext.New()
	v := ctx.CompileString(fmt.Sprintf("a: >=%s & <100\nb: %s\n c: a & b", vr.Lit(lo), vr.Lit(x)))
	err := v.Validate(cue.Concrete(false))
	vr.Observe("err", fmt.Sprint(err))
	vr.Assert((err == nil) == (x >= lo && x < 100), "bound check")
	n, e := v.LookupPath(cue.ParsePath("b")).Int64()
	vr.Assert(e == nil && n == int64(x), "int")
	vr.Observe("n", n)
	y := ctx.CompileString(fmt.Sprintf("a: %s + 5\n b: %s * 3 - 1\n c: div(%s,7)", vr.Lit(x), vr.Lit(x), vr.Lit(x)))
	n, e = y.LookupPath(cue.ParsePath("a")).Int64()
	vr.Assert(e == nil && n == int64(x+5), "add")
	n, e = y.LookupPath(cue.ParsePath("b")).Int64()
	vr.Assert(e == nil && n == int64(x*3-1), "mul")
	n, e = y.LookupPath(cue.ParsePath("c")).Int64()
	vr.Assert(e == nil && n == int64(x/7), "div")
}

var drt *thema.Runtime

func Setup_SymBind() { drt = thema.NewRuntime(cuecontext.New()) }

func H_SymBind() {
	lo := vr.Int("lo", 0, 100)
	lo2 := vr.Int("lo2", 0, 100)
	x := vr.Int("x", 0, 100)
	src := fmt.Sprintf(`name: "foo"
schemas: [{version:[0,0], schema:{ a: int & >=%s}},{version:[0,1], schema:{ a: int & >=%s}}]
lenses:[{to:[0,0],from:[0,1],input:_,result:{a:input.a}}]`, vr.Lit(lo), vr.Lit(lo2))
	lin, err := thema.BindLineage(drt.Context().CompileString(src), drt)
	vr.Assert((err == nil) == (lo2 <= lo), "compat")
	if err != nil {
		vr.Reach("rej")
		return
	}
	vr.Reach("acc")
	sch := lin.First()
	inst, err := sch.Validate(drt.Context().CompileString(fmt.Sprintf("{a: %s}", vr.Lit(x))))
	vr.Assert((err == nil) == (x >= lo), "valid")
	if err != nil {
		vr.Reach("invalid")
		return
	}
	ti, _, err := inst.Translate(thema.SV(0, 1))
	vr.Assert(err == nil, "translate")
	n, e := ti.Underlying().LookupPath(cue.ParsePath("a")).Int64()
	vr.Assert(e == nil && n == int64(x), "value kept")
}
