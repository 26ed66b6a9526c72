// C03: at bind, a minor version must be backwards compatible with its
// immediate predecessor and a major version must not be.
package c03

import (
	"github.com/cockroachdb/errors"
	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

type step struct {
	body   string
	compat bool // with the previous schema
	major  bool
}

// check binds first followed by steps and compares with the verdict.
func check(first string, steps []step) {
	v := thema.SV(0, 0)
	src := "name: \"test\"\nschemas: [{version: [0, 0], schema: " + first + "},\n"
	good := true
	for _, s := range steps {
		if s.major {
			v = thema.SV(v[0]+1, 0)
			good = good && !s.compat
		} else {
			v = thema.SV(v[0], v[1]+1)
			good = good && s.compat
		}
		src += "{version: " + kit.Ver(v) + ", schema: " + s.body + "},\n"
	}
	src += "]\nlenses: []\n"
	lin, err := kit.Bind(rt, src)
	if err == nil {
		vr.Reach("accepted")
		vr.Assert(good, "accepted lineages have compatible minors and incompatible majors")
		vr.Assert(lin != nil && len(lin.All()) == len(steps)+1, "the accepted lineage is complete")
		return
	}
	vr.Reach("rejected")
	vr.Assert(!good, "compatible minors and incompatible majors are accepted")
	vr.Assert(lin == nil, "no lineage with an error")
	vr.Assert(errors.Is(err, terrors.ErrInvalidLineage), "rejected as an invalid lineage")
}

func rng(lo, hi int) string { return "int & >=" + vr.Lit(lo) + " & <=" + vr.Lit(hi) }

func bounds(n string, hi int) (int, int) {
	a, b := vr.Int(n+"lo", 0, hi), vr.Int(n+"hi", 0, hi)
	vr.Assume(a < b)
	return a, b
}

// every pair of integer ranges, top-level or nested, optional or not
func H_Bounds() {
	hi := vr.Bound(60, 100000)
	l1, u1 := bounds("p", hi)
	l2, u2 := bounds("s", hi)
	pre, post := "{a: ", "}"
	switch vr.Choice("where", 3) {
	case 1:
		pre, post = "{n: a: ", "}"
	case 2:
		pre, post = "{k: string, a?: ", "}"
	}
	check(pre+rng(l1, u1)+post, []step{{pre + rng(l2, u2) + post, l2 <= l1 && u1 <= u2, vr.Choice("major", 2) == 1}})
}

// chains: each schema is judged against its immediate predecessor
func H_Chain() {
	n := vr.Bound(3, 4)
	hi := vr.Bound(40, 1000)
	prev := vr.Int("u0", 1, hi)
	first := "{a: int & <=" + vr.Lit(prev) + "}"
	var steps []step
	for i := 1; i < n; i++ {
		u := vr.Int("u"+kit.Itoa(i), 1, hi)
		steps = append(steps, step{"{a: int & <=" + vr.Lit(u) + "}", prev <= u, vr.Choice("major"+kit.Itoa(i), 2) == 1})
		prev = u
	}
	check(first, steps)
}

var forms = []string{"", "f?: int", "f: int", "f?: string", "f: string", "f: 3", "f?: {g: int}", "f: {g: int, h?: int}"}

// compatF reports whether every value of old is accepted by new.
func compatF(old, new int) bool {
	opt := func(i int) bool { return i == 1 || i == 3 || i == 6 }
	typ := func(i int) int { return []int{0, 1, 1, 2, 2, 3, 4, 5}[i] }
	if old == 0 {
		return new == 0 || opt(new)
	}
	if new == 0 {
		return false
	}
	if opt(old) && !opt(new) {
		return false
	}
	a, b := typ(old), typ(new)
	return a == b || a == 3 && b == 1 || a == 4 && b == 5
}

// every pair of forms of one field
func H_Fields() {
	o, n := vr.Choice("old", len(forms)), vr.Choice("new", len(forms))
	wrap := vr.Choice("wrap", 2)
	w := func(s string) string {
		if wrap == 1 {
			return "{k: int, n: {m: int, " + s + "}}"
		}
		return "{k: int, " + s + "}"
	}
	check(w(forms[o]), []step{{w(forms[n]), compatF(o, n), vr.Choice("major", 2) == 1}})
}

// two fields changing at once
func H_Fields2() {
	m := vr.Bound(5, 6)
	o, n := vr.Choice("old", m), vr.Choice("new", m)
	o2, n2 := vr.Choice("old2", 3), vr.Choice("new2", 3)
	g := []string{"", ", g?: bool", ", g: bool"}
	ok2 := compatF(o2, n2)
	f := func(i int) string {
		if i == 0 {
			return ""
		}
		return ", " + forms[i]
	}
	check("{k: int"+f(o)+g[o2]+"}", []step{{"{k: int" + f(n) + g[n2] + "}", compatF(o, n) && ok2, vr.Choice("major", 2) == 1}})
}

// element types of open lists
func H_ListElems() {
	hi := vr.Bound(20, 1000)
	l1, u1 := bounds("p", hi)
	l2, u2 := bounds("s", hi)
	body := func(l, u int) string { return "{a: [..." + rng(l, u) + "]}" }
	src := "name: \"test\"\nschemas: [{version: [0, 0], schema: " + body(l1, u1) + "},\n{version: [0, 1], schema: " + body(l2, u2) + "}]\nlenses: []\n"
	_, err := kit.Bind(rt, src)
	if l2 <= l1 && u1 <= u2 {
		vr.Reach("compatible")
		vr.Assert(err == nil, "a minor version that widens list elements is accepted")
	} else {
		vr.Reach("incompatible")
		vr.Assert(err != nil, "a minor version that narrows the elements of an open list is rejected")
	}
}
