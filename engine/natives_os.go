package main

import (
	"go/types"
	"path/filepath"
	"strings"
)

// Environment model: no file exists on disk except what embed.FS values and
// load overlays hold; there is no network, no process control.

func (m *M) namedT(pkg, name string) *TInfo {
	p := m.P.pkgs[pkg]
	if p == nil || p.Type(name) == nil {
		unsupported("type %s.%s not loaded", pkg, name)
	}
	return m.P.T.Of(p.Type(name).Type())
}

func (m *M) newStruct(t *TInfo, kv map[string]V) V {
	o := &Obj{s: append([]V(nil), t.zeroV().r.(*Agg).s...), epoch: m.epoch}
	st := t.under.(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if v, ok := kv[st.Field(i).Name()]; ok {
			if t.fields[i].agg() {
				copy(o.s[t.offs[i]:], v.r.(*Agg).s)
			} else {
				o.s[t.offs[i]] = v
			}
		}
	}
	return V{r: o}
}

func (m *M) globalV(pkg, name string) V {
	p := m.P.pkgs[pkg]
	if p == nil || p.Var(name) == nil {
		unsupported("global %s.%s not loaded", pkg, name)
	}
	g := p.Var(name)
	o := m.global(g)
	return m.load(V{r: o}, m.P.T.Of(g.Type().Underlying().(*types.Pointer).Elem()))
}

func (m *M) errNotExist(op string, path V) V {
	t := m.namedT("io/fs", "PathError")
	p := m.newStruct(t, map[string]V{"Op": mkStr(op), "Path": path, "Err": m.globalV("io/fs", "ErrNotExist")})
	return V{r: &Iface{t: m.P.T.PtrTo(t), v: p}}
}

func (m *M) errNew(s string) V {
	t := m.namedT("errors", "errorString")
	p := m.newStruct(t, map[string]V{"s": mkStr(s)})
	return V{r: &Iface{t: m.P.T.PtrTo(t), v: p}}
}

func init() {
	for _, n := range []string{"os.Stat", "os.Lstat", "os.Open", "os.ReadFile", "os.ReadDir", "io/ioutil.ReadDir", "io/ioutil.ReadFile"} {
		op := strings.ToLower(n[strings.LastIndexByte(n, '.')+1:])
		reg(n, func(m *M, a []V) V { return mkTuple(V{}, m.errNotExist(op, a[0])) })
	}
	reg("os.Hostname", func(m *M, a []V) V { return mkTuple(mkStr("verif"), V{}) })
	// CUE describes file types in CUE, in a form compiled beforehand
	file := func(m *M, name V, encs map[string]string) V {
		s := mustStr(name)
		enc := encs[filepath.Ext(s)]
		if s == "-" {
			enc = encs["-"]
		}
		if enc == "" {
			return mkTuple(V{}, m.errNew("unknown file extension"))
		}
		f := map[string]V{"Filename": name, "Encoding": mkStr(enc)}
		if enc == "cue" {
			f["Form"] = mkStr("schema")
		}
		return mkTuple(m.newStruct(m.namedT("cuelang.org/go/cue/build", "File"), f), V{})
	}
	reg("cuelang.org/go/internal/filetypes.ParseFile", func(m *M, a []V) V {
		return file(m, a[0], map[string]string{".cue": "cue"})
	})
	reg("cuelang.org/go/internal/filetypes.parseType", func(m *M, a []V) V {
		t := m.namedT("cuelang.org/go/cue", "Value")
		return mkTuple(t.zeroV(), t.zeroV(), V{})
	})
	reg("cuelang.org/go/internal/filetypes.toFile", func(m *M, a []V) V {
		return file(m, a[2], map[string]string{".cue": "cue", "-": "cue", ".json": "json", ".jsonl": "jsonl", ".ldjson": "jsonl", ".yaml": "yaml", ".yml": "yaml", ".txt": "text"})
	})
}
