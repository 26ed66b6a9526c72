// Package load stands in for cuelang.org/go/cue/load: it loads from the files that
// the stand-in for package os has.
package load

import (
	"cuelang.org/go/cue/build"
	"cuelang.org/go/cue/load"
	vos "github.com/grafana/thema/zz_verif/shimos"
)

type (
	Config = load.Config
	Source = load.Source
	Tag    = load.TagVar
	TagVar = load.TagVar
)

func FromBytes(b []byte) Source  { return load.FromBytes(b) }
func FromString(s string) Source { return load.FromString(s) }

func Instances(args []string, c *Config) []*build.Instance {
	var cc Config
	if c != nil {
		cc = *c
	}
	ov := map[string]Source{}
	for _, p := range vos.Paths() {
		if b, dir := vos.Content(p); !dir {
			ov[p] = load.FromBytes(b)
		}
	}
	for p, s := range cc.Overlay {
		ov[p] = s
	}
	cc.Overlay = ov
	if cc.Dir == "" {
		cc.Dir = vos.Cwd
	}
	return load.Instances(args, &cc)
}
