// C01: syntactic versions: order, printing, parsing.
package c01

import (
	"github.com/cockroachdb/errors"

	"github.com/grafana/thema"
	terrors "github.com/grafana/thema/errors"
	"github.com/grafana/thema/zz_verif/vr"
)

func sv(n string, hi uint64) thema.SyntacticVersion {
	return thema.SV(uint(vr.Uint(n+"0", 0, hi)), uint(vr.Uint(n+"1", 0, hi)))
}

func H_Order() {
	a, b, c := sv("a", 1<<64-1), sv("b", 1<<64-1), sv("c", 1<<64-1)
	lt, gt, eq := a.Less(b), b.Less(a), a == b
	n := 0
	for _, x := range []bool{lt, gt, eq} {
		if x {
			n++
		}
	}
	vr.Assert(n == 1, "exactly one of less, greater, equal")
	vr.Assert(lt == (a[0] < b[0] || a[0] == b[0] && a[1] < b[1]), "major first, then minor")
	if lt && b.Less(c) {
		vr.Reach("chain")
		vr.Assert(a.Less(c), "transitive")
	}
	vr.Observe("lt", lt)
}

func H_Print() {
	hi := uint64(vr.Bound(1200, 120000))
	a := sv("a", hi)
	s := a.String()
	b, err := thema.ParseSyntacticVersion(s)
	vr.Observe("s", s)
	vr.Assert(err == nil, "printed version parses")
	vr.Assert(a == b, "parse inverts print")
	vr.Assert(thema.SV(a[0], a[1]) == a, "SV keeps its arguments")
	vr.Reach("end")
}

// numerals reports whether s is N "." N, with the values.
func split(s string) (a, b uint64, ok bool) {
	dot := -1
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '.' {
			if dot >= 0 {
				return 0, 0, false
			}
			dot = i
			continue
		}
		if c < '0' || c > '9' {
			return 0, 0, false
		}
		if dot < 0 {
			a = a*10 + uint64(c-'0')
		} else {
			b = b*10 + uint64(c-'0')
		}
	}
	return a, b, dot > 0 && dot < len(s)-1
}

func checkParse(s string) {
	v, err := thema.ParseSyntacticVersion(s)
	a, b, ok := split(s)
	ok = ok && a < 1<<32 && b < 1<<32
	if err == nil {
		vr.Reach("accepted")
		vr.Assert(ok, "only MAJOR.MINOR numerals parse")
		vr.Assert(uint64(v[0]) == a && uint64(v[1]) == b, "parsed value is the one written")
		vr.Observe("v", uint64(v[0]))
	} else {
		vr.Reach("rejected")
		vr.Assert(!ok, "MAJOR.MINOR numerals parse")
		vr.Assert(errors.Is(err, terrors.ErrMalformedSyntacticVersion), "parse failure is ErrMalformedSyntacticVersion")
	}
}

func H_ParseBytes() {
	n := vr.Choice("len", vr.Bound(5, 6))
	checkParse(vr.Str("s", n, 0x20, 0x7e))
}

func H_ParseDigits() {
	n := vr.Choice("len", 12)
	m := vr.Choice("len2", 12)
	vr.Assume(n < 3 || m < vr.Bound(3, 12))
	checkParse(vr.Str("s", n, '0', '9') + "." + vr.Str("t", m, '0', '9'))
}
