package dev

import (
	"reflect"

	"cuelang.org/go/cue/cuecontext"
	"github.com/grafana/thema/zz_verif/vr"
)

func H_Kind() {
	vr.Observe("k", reflect.TypeOf(uint8(0)).Kind().String())
	vr.Observe("n", reflect.TypeOf(uint8(0)).Name())
	vr.Observe("s", reflect.TypeOf([]uint8{}).String())
	ctx := cuecontext.New()
	v := ctx.CompileString("int8")
	vr.Observe("v", v.Err() == nil)
	w := ctx.EncodeType(struct {
		A int16 `json:"a"`
	}{})
	vr.Observe("w", w.Err() == nil)
}
