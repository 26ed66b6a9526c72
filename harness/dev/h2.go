package dev

import (
	"fmt"

	"cuelang.org/go/cue/cuecontext"
	"github.com/grafana/thema/zz_verif/vr"
)

func H_Cue() {
	for i, s := range []string{
		"a: int\nb: string",
		"a: >=0 & <10\nb: !=\"\"",
		"#A: {x: int, y?: string}\nb: #A & {x: 3}",
		"a: [...int]\nb: [1,2]\nc: a & b\nd: b[0]",
		"import \"list\"\na: list.Sum([1,2])",
		"import \"strings\"\na: strings.ToUpper(\"a\")",
		"a: *1 | int\nb: a & 2\nc: a",
		"a: {for x in [1,2,3] {\"k\\(x)\": x}}",
		"a: =~\"^[a-z]$\"\nb: a & \"c\"",
		"a: {[string]: int}\nb: a & {x: 1}",
		"#V: [uint64, uint64]\n v: #V & [0,1]\n n: string & !=\"\"",
		"a: uint64\nb: a & 3",
		"import \"struct\"\n a: struct.MaxFields(1)\n b: a & {x: 1}",
		"let x = 4\na: x\nb: {c: a, if a > 3 {d: 1}}",
	} {
		v := cuecontext.New().CompileString(s)
		err := v.Validate()
		vr.Observe(fmt.Sprint(i), fmt.Sprint(v, err))
	}
}
