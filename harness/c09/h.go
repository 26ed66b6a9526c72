// C09: BindLineage accepts exactly the required set of Go lenses.
package c09

import (
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

func mapper(inst *thema.Instance, to thema.Schema) (*thema.Instance, error) { return inst, nil }

func required(vs []thema.SyntacticVersion) []thema.ImperativeLens {
	var out []thema.ImperativeLens
	for _, p := range kit.LensPairs(vs) {
		out = append(out, thema.ImperativeLens{To: vs[p[0]], From: vs[p[1]], Mapper: mapper})
	}
	return out
}

func verdict(vs []thema.SyntacticVersion, lenses []thema.ImperativeLens) {
	req := required(vs)
	// exact set: same size, no repeats, each required one present, mappers set
	missing, extra, dup, nilm := false, false, false, false
	for _, r := range req {
		n := 0
		for _, l := range lenses {
			if l.To == r.To && l.From == r.From {
				n++
			}
		}
		missing = missing || n == 0
	}
	for i, l := range lenses {
		n := 0
		for _, r := range req {
			if l.To == r.To && l.From == r.From {
				n++
			}
		}
		extra = extra || n == 0
		for _, k := range lenses[:i] {
			dup = dup || k.To == l.To && k.From == l.From
		}
		nilm = nilm || l.Mapper == nil
	}
	good := !missing && !extra && !dup && !nilm
	lin, err := kit.Bind(rt, kit.LinSrc(vs, nil), thema.ImperativeLenses(lenses...))
	if err == nil {
		vr.Reach("accepted")
		vr.Assert(good, "only the exact set of lenses is accepted")
		vr.Assert(lin != nil, "a lineage is returned")
		return
	}
	vr.Reach("rejected")
	vr.Assert(!good, "the exact set of lenses is accepted")
	vr.Assert(lin == nil, "no lineage with an error")
	if !dup && !nilm {
		if missing {
			vr.Assert(errors.Is(err, terrors.ErrMissingLenses), "missing lenses are reported as ErrMissingLenses")
		} else {
			vr.Assert(errors.Is(err, terrors.ErrErroneousLenses), "surplus lenses are reported as ErrErroneousLenses")
		}
	}
}

func shape() []thema.SyntacticVersion {
	all := kit.Shapes(99)
	sel := [][]int{all[1], all[2], all[4], all[5], all[6], all[8]}
	if vr.Bound(0, 1) == 1 {
		sel = append(all[1:12], all[13])
	}
	return kit.Versions(sel[vr.Choice("shape", len(sel))])
}

func ver(n string, hi uint64) thema.SyntacticVersion {
	return thema.SV(uint(vr.Uint(n+"0", 0, hi)), uint(vr.Uint(n+"1", 0, hi)))
}

// one lens of the required set is replaced by an arbitrary one
func H_Replace() {
	vs := shape()
	ls := required(vs)
	k := vr.Choice("k", len(ls))
	ls[k].To, ls[k].From = ver("to", 3), ver("from", 3)
	verdict(vs, ls)
}

// an arbitrary lens is added, at either end
func H_Add() {
	vs := shape()
	ls := required(vs)
	x := thema.ImperativeLens{To: ver("to", 3), From: ver("from", 3), Mapper: mapper}
	if vr.Choice("front", 2) == 1 {
		ls = append([]thema.ImperativeLens{x}, ls...)
	} else {
		ls = append(ls, x)
	}
	verdict(vs, ls)
}

// any subset of the required lenses, forwards or backwards, with or without a nil mapper
func H_Subset() {
	vs := shape()
	var ls []thema.ImperativeLens
	for i, l := range required(vs) {
		if vr.Choice("in"+kit.Itoa(i), 2) == 1 {
			ls = append(ls, l)
		}
	}
	if len(ls) == 0 {
		return // no Go lenses at all: the lineage's own lenses are used
	}
	if vr.Choice("reverse", 2) == 1 {
		for i, j := 0, len(ls)-1; i < j; i, j = i+1, j-1 {
			ls[i], ls[j] = ls[j], ls[i]
		}
	}
	if n := vr.Choice("nil", len(ls)+1); n > 0 {
		ls[n-1].Mapper = nil
	}
	verdict(vs, ls)
}
