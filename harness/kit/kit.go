// Package kit holds helpers shared by the harnesses.
package kit

import (
	"strconv"
	"strings"

	"cuelang.org/go/cue"
	"cuelang.org/go/cue/cuecontext"
	"github.com/grafana/thema"
)

// NewRT makes a fresh thema runtime.
func NewRT() *thema.Runtime { return thema.NewRuntime(cuecontext.New()) }

// Bind compiles src as a lineage and binds it.
func Bind(rt *thema.Runtime, src string, opts ...thema.BindOption) (thema.Lineage, error) {
	return thema.BindLineage(rt.Context().CompileString(src, cue.Filename("lineage.cue")), rt, opts...)
}

// Data compiles src as data.
func Data(rt *thema.Runtime, src string) cue.Value {
	return rt.Context().CompileString(src, cue.Filename("data.json"))
}

// Itoa is strconv.Itoa.
func Itoa(i int) string { return strconv.Itoa(i) }

// Ver renders a version as a CUE list.
func Ver(v thema.SyntacticVersion) string {
	return "[" + strconv.Itoa(int(v[0])) + ", " + strconv.Itoa(int(v[1])) + "]"
}

// Versions lists the versions of a lineage with counts[i] schemas in major i.
func Versions(counts []int) []thema.SyntacticVersion {
	var vs []thema.SyntacticVersion
	for maj, n := range counts {
		for min := 0; min < n; min++ {
			vs = append(vs, thema.SV(uint(maj), uint(min)))
		}
	}
	return vs
}

// LensPairs lists the explicit lenses a lineage with these versions needs, in
// the required order (by to, then from), as [to, from].
func LensPairs(vs []thema.SyntacticVersion) [][2]int {
	var out [][2]int
	for to := range vs {
		if to > 0 && vs[to-1][0] != vs[to][0] {
			out = append(out, [2]int{to, to - 1})
		}
		if to+1 < len(vs) {
			out = append(out, [2]int{to, to + 1})
		}
	}
	return out
}

// SchemaBody is a schema for version v that differs from every other version:
// majors differ in the constant m, minors add optional fields.
func SchemaBody(v thema.SyntacticVersion) string {
	var sb strings.Builder
	sb.WriteString("{x: int, m: " + strconv.Itoa(int(v[0])))
	for i := 1; i <= int(v[1]); i++ {
		sb.WriteString(", o" + strconv.Itoa(i) + "?: int")
	}
	sb.WriteString("}")
	return sb.String()
}

// LinSrc builds a lineage of these versions. Lens number k (in LensPairs order)
// adds add[k] to x; add may be nil (no lenses).
func LinSrc(vs []thema.SyntacticVersion, add []string) string {
	var sb strings.Builder
	sb.WriteString("name: \"test\"\nschemas: [")
	for _, v := range vs {
		sb.WriteString("{version: " + Ver(v) + ", schema: " + SchemaBody(v) + "},\n")
	}
	sb.WriteString("]\nlenses: [")
	if add != nil {
		for k, p := range LensPairs(vs) {
			to, from := vs[p[0]], vs[p[1]]
			sb.WriteString("{to: " + Ver(to) + ", from: " + Ver(from) + ", input: _, result: {m: " + strconv.Itoa(int(to[0])) + ", x: input.x + " + add[k] + "}},\n")
		}
	}
	sb.WriteString("]\n")
	return sb.String()
}

// Int reads an integer field of v.
func Int(v cue.Value, path string) (int, bool) {
	n, err := v.LookupPath(cue.ParsePath(path)).Int64()
	return int(n), err == nil
}

// Shapes are the lineage shapes used by the harnesses: schemas per major.
func Shapes(n int) [][]int {
	all := [][]int{{1}, {2}, {1, 1}, {3}, {2, 1}, {1, 2}, {1, 1, 1}, {2, 2}, {1, 2, 1}, {2, 1, 2}, {1, 1, 1, 1}, {1, 2, 1, 1}, {2, 2, 1, 2}, {1, 1, 1, 1, 1}, {1, 1, 2, 1, 1}}
	if n < len(all) {
		all = all[:n]
	}
	return all
}
