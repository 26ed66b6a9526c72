package main

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir  = envOr("VERIF_REPO", "/repo")
	verifDir = envOr("VERIF_DIR", "/verif")
	goBin    = envOr("VERIF_GOBIN", "/opt/veriftools/go1.23.12/bin")
)

const modPath = "github.com/grafana/thema"

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func goEnv() []string {
	var env []string
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "PATH", "HOME", "GOPATH", "GOMODCACHE", "GOCACHE", "GOTOOLCHAIN", "GOFLAGS", "GOPROXY", "GOWORK", "CGO_ENABLED":
			continue
		}
		env = append(env, e)
	}
	cache := envOr("VERIF_GOCACHE", "/root/.cache/go-build")
	return append(env, "PATH="+goBin+":/usr/local/bin:/usr/bin:/bin", "HOME=/root", "GOPATH=/root/go",
		"GOMODCACHE=/root/go/pkg/mod", "GOCACHE="+cache, "GOTOOLCHAIN=local",
		"GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "CGO_ENABLED=0")
}

// overlayFor maps harness sources into /repo/zz_verif.
func overlayFor(hpkg string) (map[string]string, error) {
	ov := map[string]string{}
	add := func(dir, dst string) error {
		ents, err := os.ReadDir(dir)
		if err != nil {
			return err
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				ov[filepath.Join(repoDir, "zz_verif", dst, e.Name())] = filepath.Join(dir, e.Name())
			}
		}
		return nil
	}
	for _, d := range []string{"vr", "kit"} {
		if _, err := os.Stat(filepath.Join(verifDir, "harness", d)); err == nil {
			if err := add(filepath.Join(verifDir, "harness", d), d); err != nil {
				return nil, err
			}
		}
	}
	return ov, add(filepath.Join(verifDir, "harness", hpkg), hpkg)
}

// clonesFor gives the sources of a command that the harness package contains, if
// its directory has a clone.json: package main cannot be imported, so its current
// sources become part of the harness package, with some imports replaced by
// stand-ins (for the file system, say) from the harness directory.
func clonesFor(hpkg string, ov map[string]string) (map[string][]byte, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", hpkg, "clone.json"))
	if os.IsNotExist(err) {
		return nil, nil
	}
	var c struct {
		From    string
		Imports map[string]string
	}
	if err == nil {
		err = json.Unmarshal(b, &c)
	}
	if err != nil {
		return nil, err
	}
	for _, sh := range c.Imports {
		dir := filepath.Join(verifDir, "harness", sh)
		ents, err := os.ReadDir(dir)
		if err != nil {
			return nil, err
		}
		for _, e := range ents {
			ov[filepath.Join(repoDir, "zz_verif", sh, e.Name())] = filepath.Join(dir, e.Name())
		}
	}
	out := map[string][]byte{}
	ents, err := os.ReadDir(filepath.Join(repoDir, c.From))
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		src, err := os.ReadFile(filepath.Join(repoDir, c.From, e.Name()))
		if err != nil {
			return nil, err
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, e.Name(), src, parser.ImportsOnly)
		if err != nil {
			return nil, err
		}
		res := append([]byte{}, src...)
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		for i := len(f.Imports) - 1; i >= 0; i-- {
			im := f.Imports[i]
			path, _ := strconv.Unquote(im.Path.Value)
			if sh, ok := c.Imports[path]; ok {
				name := ""
				if im.Name == nil {
					name = path[strings.LastIndexByte(path, '/')+1:] + " "
				}
				at := off(im.Path.Pos())
				res = append(append(append([]byte{}, res[:at]...), name+strconv.Quote("github.com/grafana/thema/zz_verif/"+sh)...), res[at+len(im.Path.Value):]...)
			}
		}
		at := off(f.Name.Pos())
		res = append(append(append([]byte{}, res[:at]...), hpkg...), res[at+len(f.Name.Name):]...)
		out[filepath.Join(repoDir, "zz_verif", hpkg, "clone_"+e.Name())] = res
	}
	return out, nil
}

// load builds the SSA program for harness package hpkg against /repo's tree.
func load(hpkg string) (*Prog, *ssa.Package, error) {
	ov, err := overlayFor(hpkg)
	if err != nil {
		return nil, nil, err
	}
	bytesOv, err := clonesFor(hpkg, ov)
	if err != nil {
		return nil, nil, err
	}
	if bytesOv == nil {
		bytesOv = map[string][]byte{}
	}
	for k, v := range ov {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		bytesOv[k] = b
	}
	os.Setenv("PATH", goBin+":/usr/local/bin:/usr/bin:/bin")
	t0 := time.Now()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule | packages.NeedEmbedFiles | packages.NeedEmbedPatterns,
		Dir:        repoDir,
		Env:        goEnv(),
		Overlay:    bytesOv,
		BuildFlags: []string{"-tags=math_big_pure_go,purego,nethttpomithttp2"},
	}
	pkgs, err := packages.Load(cfg, "./zz_verif/"+hpkg)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 6 {
			errs = errs[:6]
		}
		return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "; "))
	}
	t1 := time.Now()
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	if debugStacks {
		fmt.Fprintln(os.Stderr, "# load", t1.Sub(t0), "ssa", time.Since(t1))
	}
	P := &Prog{prog: prog, fset: prog.Fset, T: newTypes(prog), embeds: map[*ssa.Global]V{}, pkgs: map[string]*ssa.Package{}}
	P.skipInit = skipInit
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	rt := P.pkgs["runtime"]
	P.rtErrType = P.T.Of(rt.Type("errorString").Type())
	P.stringT = P.T.Of(types.Typ[types.String])
	P.intT = P.T.Of(types.Typ[types.Int])
	packages.Visit(pkgs, nil, func(p *packages.Package) { P.findEmbeds(p) })
	return P, spkgs[0], nil
}

func (P *Prog) findEmbeds(p *packages.Package) {
	if _, ok := p.Imports["embed"]; !ok {
		return
	}
	sp := P.pkgs[p.PkgPath]
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok {
				continue
			}
			for _, s := range gd.Specs {
				vs, ok := s.(*ast.ValueSpec)
				if !ok || len(vs.Names) != 1 {
					continue
				}
				var pats []string
				for _, cg := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
					if cg == nil {
						continue
					}
					for _, c := range cg.List {
						if strings.HasPrefix(c.Text, "//go:embed ") {
							pats = append(pats, strings.Fields(c.Text[len("//go:embed "):])...)
						}
					}
				}
				if len(pats) == 0 {
					continue
				}
				g := sp.Var(vs.Names[0].Name)
				dir := filepath.Dir(P.fset.Position(f.Pos()).Filename)
				P.embed(g, dir, pats)
			}
		}
	}
}

func (P *Prog) embed(g *ssa.Global, dir string, pats []string) {
	t := P.T.Of(g.Type()).elem
	files := map[string][]byte{}
	for _, pat := range pats {
		pat = strings.Trim(pat, "\"`")
		pat = strings.TrimPrefix(pat, "all:")
		ms, _ := filepath.Glob(filepath.Join(dir, pat))
		for _, mt := range ms {
			filepath.WalkDir(mt, func(path string, d fs.DirEntry, err error) error {
				if err != nil || d.IsDir() {
					return nil
				}
				if b, err := os.ReadFile(path); err == nil {
					rel, _ := filepath.Rel(dir, path)
					files[rel] = b
				}
				return nil
			})
		}
	}
	switch t.kind {
	case KString:
		for _, b := range files {
			P.embeds[g] = V{r: &Agg{[]V{mkStr(string(b))}}}
		}
		return
	case KSlice:
		for _, b := range files {
			o := &Obj{s: strBytes(mkStr(string(b)))}
			P.embeds[g] = V{r: &Agg{[]V{{r: &Slice{o, 0, len(b), len(b)}}}}}
		}
		return
	}
	// embed.FS{files *[]file}; file{name, data string, hash [16]byte}
	dirs := map[string]bool{}
	for n := range files {
		for d := filepath.Dir(n); d != "."; d = filepath.Dir(d) {
			dirs[d+"/"] = true
		}
	}
	var names []string
	for n := range files {
		names = append(names, n)
	}
	for d := range dirs {
		names = append(names, d)
	}
	split := func(n string) (string, string) {
		n = strings.TrimSuffix(n, "/")
		i := strings.LastIndexByte(n, '/')
		if i < 0 {
			return ".", n
		}
		return n[:i], n[i+1:]
	}
	// sort by (dir, elem)
	for i := range names {
		for j := i + 1; j < len(names); j++ {
			di, ei := split(names[i])
			dj, ej := split(names[j])
			if dj < di || (dj == di && ej < ei) {
				names[i], names[j] = names[j], names[i]
			}
		}
	}
	fsz := 2 + 16
	o := &Obj{}
	for _, n := range names {
		sl := make([]V, fsz)
		sl[0] = mkStr(n)
		sl[1] = mkStr(string(files[n]))
		h := sha256.Sum256(files[n])
		for i := 0; i < 16; i++ {
			sl[2+i].n = uint64(h[i])
		}
		o.s = append(o.s, sl...)
	}
	hdr := &Obj{s: []V{{r: &Slice{o, 0, len(names), len(names)}}}}
	P.embeds[g] = V{r: &Agg{[]V{{r: hdr}}}}
}

// skipInit lists packages whose initialisers are not interpreted; touching one
// of their globals is recorded.
func skipInit(p string) bool {
	switch p {
	case "runtime", "syscall", "os/exec", "net", "net/netip", "internal/poll", "internal/cpu", "runtime/debug",
		"internal/godebug", "internal/bisect", "os/user", "log/slog", "unique", "mime",
		"go/build", "internal/buildcfg", "go/doc", "go/doc/comment", "html", "html/template", "flag",
		"github.com/golang/glog", "testing", "os/signal", "runtime/pprof", "encoding/gob", "reflect", "internal/reflectlite",
		"math/rand", "math/rand/v2", "internal/syscall/unix", "vendor/golang.org/x/net/idna", "golang.org/x/net/idna",
		"github.com/google/uuid", "cuelang.org/go/internal/filetypes", "internal/testlog", "cuelang.org/go/pkg/uuid", "time/tzdata":
		return true
	}
	for _, pre := range []string{"crypto", "net/", "vendor/golang.org", "github.com/gogo/protobuf", "github.com/getsentry", "internal/runtime", "runtime/internal",
		"github.com/cockroachdb/errors/errorspb", "cuelang.org/go/pkg/tool", "cuelang.org/go/pkg/net", "cuelang.org/go/pkg/crypto", "google.golang.org", "golang.org/x/net", "golang.org/x/sys", "github.com/labstack", "github.com/mattn", "github.com/valyala", "github.com/gin-gonic", "golang.org/x/crypto"} {
		if strings.HasPrefix(p, pre) {
			return true
		}
	}
	return false
}
