// C29: the TypeScript types generated for a schema.
package c29

import (
	"strconv"
	"strings"

	"github.com/grafana/cuetsy"
	"github.com/grafana/thema"
	"github.com/grafana/thema/encoding/typescript"
	"github.com/grafana/thema/zz_verif/kit"
	"github.com/grafana/thema/zz_verif/vr"
)

var rt *thema.Runtime

func Setup() { rt = kit.NewRT() }

// kind of a field: its declaration, TypeScript type and default
type kind struct{ cue, typ, def string }

// words of the text, so that layout does not matter
func words(s string) string { return strings.Join(strings.Fields(s), " ") }

const defs = ", #D: {q: int, r?: #E}, #E: {s: \"k\" | \"l\"}, #Int: {a: int} @cuetsy(kind=\"interface\"), #Typ: \"u\" | \"v\" @cuetsy(kind=\"type\")"

const tsE = "{ s: ('k' | 'l'); }"
const tsD = "{ q: number; r?: " + tsE + "; }"

// H_Fields: every kind of field, in every version and configuration.
func H_Fields() {
	d := vr.Int("default", 100, 999)
	w := vr.Str("word", 1, 'b', 'z')
	kinds := []kind{
		{"int", "number", ""},
		{"string | null", "(string | null)", ""},
		{"int | *" + vr.Lit(d), "number", strconv.Itoa(d)},
		{"\"a" + w + "\" | *\"x-y\"", "('a" + w + "' | 'x-y')", "'x-y'"},
		{"*\"a" + w + "\" | \"x-y\"", "('a" + w + "' | 'x-y')", "'a" + w + "'"},
		{"[...int]", "Array<number>", "[]"},
		{"{[string]: bool}", "Record<string, boolean>", ""},
		{"#D", tsD, ""},
		{"{x: int, y?: string}", "{ x: number; y?: string; }", ""},
		{"[...#Int]", "Array<Int>", "[]"},
		{"#Typ", "Typ", ""},
		{"string | int", "(string | number)", ""},
		{"\"a" + w + "\"", "'a" + w + "'", ""},
		{"[...int] | *[1, " + vr.Lit(d) + "]", "Array<number>", "[1, " + strconv.Itoa(d) + "]"},
		{"bool | *true", "boolean", "true"},
		{"[...{x: int, y: [...{z: string}]}]", "Array<{ x: number; y: Array<{ z: string; }>; }>", "[]"},
		{"_", "unknown", ""},
		{"{...}", "Record<string, unknown>", ""},
	}
	k := kinds[vr.Choice("kind", len(kinds))]
	opt := ""
	if vr.Choice("optional", 2) == 1 {
		opt = "?"
	}
	name := vr.Str("name", 1, 'b', 'z') + "w"
	lname := []string{"test", "Other"}[vr.Choice("lineage", 2)]
	src := "name: \"" + lname + "\"\nschemas: [{version: [0, 0], schema: {a: int" + defs + "}}, {version: [1, 0], schema: {" + name + opt + ": " + k.cue + defs + "}}, {version: [2, 0], schema: {c: bool" + defs + "}}]\nlenses: []\n"
	lin, err := kit.Bind(rt, src)
	vr.Assert(err == nil, "the lineage binds")
	vr.Assume(err == nil)
	sch, err := lin.Schema(thema.SV(1, 0))
	vr.Assume(err == nil)
	cfg := &typescript.TypeConfig{}
	root := []string{"Test", "Other"}
	rn := root[0]
	if lname == "Other" {
		rn = root[1]
	}
	mode := []int{0, 1, 3, 4, 5}[vr.Choice("mode", 5)]
	switch mode {
	case 1:
		cfg.RootName = "R" + w
		rn = cfg.RootName
	case 3:
		cfg.Group = true
	case 4:
		cfg.CuetsyConfig = &cuetsy.Config{ImportMapper: cuetsy.IgnoreImportMapper}
	case 5:
		cfg = nil
	}
	f, err := typescript.GenerateTypes(sch, cfg)
	vr.Assert(err == nil, "types are generated")
	vr.Assume(err == nil)
	got := words(f.String())
	exp := "export "
	if mode == 4 {
		exp = ""
	}
	want := exp + "interface Int { a: number; } " + exp + "type Typ = ('u' | 'v');"
	if mode != 3 {
		exp = "export "
		body := "{ " + name + opt + ": " + k.typ + "; }"
		want += " " + exp + "interface " + rn + " " + body
		if k.def != "" {
			want += " " + exp + "const default" + rn + ": Partial<" + rn + "> = { " + name + ": " + k.def + ", };"
		}
	}
	vr.Assert(got == want, "the types are those of the schema")
	if mode == 5 {
		return
	}
	// the same configuration for another schema
	other, err := kit.Bind(rt, "name: \"more\"\nschemas: [{version: [0, 0], schema: {c: bool"+defs+"}}]\nlenses: []\n")
	vr.Assume(err == nil)
	f, err = typescript.GenerateTypes(other.First(), cfg)
	vr.Assert(err == nil, "types are generated")
	vr.Assume(err == nil)
	if mode != 1 {
		rn = "More"
	}
	has := strings.Contains(words(f.String()), "interface "+rn+" { c: boolean; }")
	vr.Assert(has == (mode != 3), "a configuration can be used again")
}
