package main

// Loads the harness package together with /repo's current source. Imports of
// environment packages (randomness, hashes, locks, reflection-based codecs)
// in /repo files are redirected to the shim packages of /verif/h.

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const hmod = "verif.local/h"
const repoMod = "github.com/liyue201/gostl"

var shimImports = map[string]string{
	"math/rand":       hmod + "/shim/rand",
	"hash/fnv":        hmod + "/shim/fnv",
	"crypto/sha512":   hmod + "/shim/sha512",
	"crypto/sha256":   hmod + "/shim/sha256",
	"crypto/sha1":     hmod + "/shim/sha1",
	"crypto/md5":      hmod + "/shim/md5",
	"sync/atomic":     hmod + "/shim/atomic",
	"encoding/binary": hmod + "/shim/binary",
	"sync":            hmod + "/shim/sync",
}

// shimOverlay rewrites the import paths of every non-test Go file under repo.
func shimOverlay(repo string, shims map[string]string) map[string][]byte {
	ov := map[string][]byte{}
	filepath.Walk(repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return nil
		}
		if fi.IsDir() {
			if fi.Name() == ".git" || (fi.Name() == "examples" && filepath.Dir(p) == repo) {
				return filepath.SkipDir
			}
			return nil
		}
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		src, err := os.ReadFile(p)
		if err != nil {
			return nil
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, p, src, parser.ImportsOnly)
		if err != nil {
			return nil
		}
		type edit struct {
			a, b int
			s    string
		}
		var edits []edit
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if to, ok := shims[path]; ok {
				edits = append(edits, edit{fset.Position(im.Path.Pos()).Offset, fset.Position(im.Path.End()).Offset, strconv.Quote(to)})
			}
		}
		if len(edits) == 0 {
			return nil
		}
		out := string(src)
		for i := len(edits) - 1; i >= 0; i-- {
			e := edits[i]
			out = out[:e.a] + e.s + out[e.b:]
		}
		ov[p] = []byte(out)
		return nil
	})
	return ov
}

// writeOverlayJSON stores overlay contents under dir and returns the JSON file
// for go build -overlay.
func writeOverlayJSON(dir string, ov map[string][]byte) string {
	rep := map[string]string{}
	i := 0
	for p, b := range ov {
		f := filepath.Join(dir, "ov"+strconv.Itoa(i)+".go")
		i++
		if err := os.WriteFile(f, b, 0o644); err != nil {
			fatal("%v", err)
		}
		rep[p] = f
	}
	js, _ := json.Marshal(map[string]any{"Replace": rep})
	f := filepath.Join(dir, "overlay.json")
	os.WriteFile(f, js, 0o644)
	return f
}

type Program struct {
	prog  *ssa.Program
	hpkg  *ssa.Package
	fset  *token.FileSet
	pkgs  map[string]*ssa.Package
	names []string // harness function names
}

// packages whose bodies are interpreted (the others need intrinsics)
func interpretable(path string) bool {
	if strings.HasPrefix(path, hmod) || strings.HasPrefix(path, repoMod) {
		return true
	}
	switch path {
	case "errors", "io", "bytes", "strings", "sort", "slices", "maps", "cmp", "iter", "container/list", "container/heap",
		"container/ring", "math/bits", "math", "unicode/utf8", "encoding/binary", "hash", "internal/bytealg", "internal/byteorder", "strconv", "internal/strconv",
		"golang.org/x/exp/constraints", "internal/stringslite", "internal/byteorder_":
		return true
	}
	return false
}

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "GOSUMDB=off", "CGO_ENABLED=0")
}

func loadProgram(hdir, pattern string, ov map[string][]byte) (*Program, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     hdir,
		Env:     goEnv(),
		Fset:    fset,
		Overlay: ov,
		ParseFile: func(fset *token.FileSet, filename string, src []byte) (*ast.File, error) {
			return parser.ParseFile(fset, filename, src, parser.SkipObjectResolution)
		},
	}
	pk, err := packages.Load(cfg, pattern)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, &loadError{strings.Join(errs, "\n")}
	}
	prog, ps := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	P := &Program{prog: prog, hpkg: ps[0], fset: fset, pkgs: map[string]*ssa.Package{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
		if interpretable(p.Pkg.Path()) {
			p.Build()
		}
	}
	for name, mem := range P.hpkg.Members {
		if f, ok := mem.(*ssa.Function); ok && strings.HasPrefix(name, "H_") && f.Signature.Params().Len() == 0 {
			P.names = append(P.names, name)
		}
	}
	_ = types.Universe
	return P, nil
}

type loadError struct{ s string }

func (e *loadError) Error() string { return e.s }
