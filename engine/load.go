package main

import (
	"bytes"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/asap2Go/calibrationReader"

var repoDir = func() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}()

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}()

type threadGroup struct{ wg sync.WaitGroup }

// World is the loaded program, shared by all workers.
type World struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	mu      sync.Mutex
	built   map[*ssa.Package]bool
	tgs     map[*Interp]*threadGroup
	tgMu    sync.Mutex
	intr    sync.Map // *ssa.Function -> intrinsic or nil
	dropped []string

	slashOnce sync.Once
	slash     []string
}

func (w *World) wgFor(in *Interp) *threadGroup {
	w.tgMu.Lock()
	defer w.tgMu.Unlock()
	g := w.tgs[in]
	if g == nil {
		g = &threadGroup{}
		w.tgs[in] = g
	}
	return g
}

// pkgDirs maps the harness directory name to the package directory in the repository.
var pkgDirs = map[string]string{"root": "", "a2l": "a2l", "ihex32": "ihex32", "srec19": "srec19"}
var pkgNames = map[string]string{"root": "calibrationReader", "a2l": "a2l", "ihex32": "ihex32", "srec19": "srec19"}

// overlayFiles returns harness files: absolute path in the repository -> content.
func overlayFiles(skip map[string]bool, tests bool) map[string][]byte {
	ov := map[string][]byte{}
	rt, err := os.ReadFile(filepath.Join(verifDir, "harness", "rt", "rt.go.txt"))
	if err != nil {
		fatal(err)
	}
	for h, d := range pkgDirs {
		dir := filepath.Join(verifDir, "harness", h)
		ents, _ := os.ReadDir(dir)
		any := false
		for _, e := range ents {
			n := e.Name()
			if !strings.HasSuffix(n, ".go") || skip[h+"/"+n] {
				continue
			}
			b, err := os.ReadFile(filepath.Join(dir, n))
			if err != nil {
				fatal(err)
			}
			ov[filepath.Join(repoDir, d, "zz_verif_"+n)] = b
			any = true
		}
		if any {
			ov[filepath.Join(repoDir, d, "zz_verif_rt.go")] = bytes.ReplaceAll(rt, []byte("PKGNAME"), []byte(pkgNames[h]))
		}
	}
	return ov
}

func repoEnv() []string {
	env := append(os.Environ(), "GOFLAGS=-mod=vendor", "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off")
	return env
}

// load loads the repository with the harness overlay. Harness files that do not
// type-check (because a function they use is gone) are dropped and reported.
func load(need map[string]bool) (*World, error) {
	skip := map[string]bool{}
	var dropped []string
	for round := 0; ; round++ {
		cfg := &packages.Config{
			Mode:    packages.LoadAllSyntax,
			Dir:     repoDir,
			Env:     repoEnv(),
			Overlay: overlayFiles(skip, false),
			Fset:    token.NewFileSet(),
		}
		var pats []string
		for h := range need {
			pats = append(pats, "./"+pkgDirs[h])
		}
		sort.Strings(pats)
		pkgs, err := packages.Load(cfg, pats...)
		if err != nil {
			return nil, err
		}
		bad := map[string]bool{}
		var firstErr error
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			if !strings.HasPrefix(p.PkgPath, modPath) {
				return
			}
			for _, e := range p.Errors {
				pos := e.Pos
				if i := strings.Index(pos, ":"); i >= 0 {
					pos = pos[:i]
				}
				base := filepath.Base(pos)
				if strings.HasPrefix(base, "zz_verif_") {
					rel, _ := filepath.Rel(repoDir, filepath.Dir(pos))
					h := rel
					if rel == "." {
						h = "root"
					}
					bad[h+"/"+strings.TrimPrefix(base, "zz_verif_")] = true
				} else if firstErr == nil {
					firstErr = fmt.Errorf("%s: %s", e.Pos, e.Msg)
				}
			}
		})
		if len(bad) > 0 && round < 6 {
			for b := range bad {
				skip[b] = true
				dropped = append(dropped, b)
			}
			continue
		}
		if firstErr != nil {
			return nil, firstErr
		}
		prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		w := &World{prog: prog, pkgs: map[string]*ssa.Package{}, built: map[*ssa.Package]bool{}, tgs: map[*Interp]*threadGroup{}, dropped: dropped}
		for _, p := range prog.AllPackages() {
			w.pkgs[p.Pkg.Path()] = p
			if interpretable(p.Pkg.Path()) {
				p.Build()
			}
		}
		return w, nil
	}
}

var interpPkgs = map[string]bool{
	"strings": true, "strconv": true, "unicode": true, "unicode/utf8": true, "bytes": true, "errors": true,
	"encoding/hex": true, "encoding/binary": true, "sort": true, "slices": true, "maps": true, "cmp": true,
	"math": true, "math/bits": true, "iter": true, "internal/stringslite": true, "internal/byteorder": true,
	"internal/strconv": true, "unicode/utf16": true, "container/list": true, "container/heap": true,
	"github.com/x448/float16": true, "internal/bytealg": true, "bufio": true, "io": true, "path/filepath": true, "path": true,
	"internal/filepathlite": true, "sync/atomic": true, "internal/itoa": true,
}

func interpretable(path string) bool {
	return strings.HasPrefix(path, modPath) || interpPkgs[path]
}

func pkgOf(fn *ssa.Function) *ssa.Package {
	if fn.Pkg != nil {
		return fn.Pkg
	}
	if o := fn.Origin(); o != nil && o != fn {
		return pkgOf(o)
	}
	if p := fn.Parent(); p != nil {
		return pkgOf(p)
	}
	return nil
}

func (w *World) isStub(fn *ssa.Function) bool {
	path := ""
	if p := pkgOf(fn); p != nil {
		path = p.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	return strings.HasPrefix(path, "github.com/rs/zerolog") || path == "time" || path == "log" || path == "log/slog"
}

func (w *World) buildFor(fn *ssa.Function) {
	p := pkgOf(fn)
	if p == nil {
		return
	}
	if !interpretable(p.Pkg.Path()) && fn.Synthetic == "" {
		panic(pathEnd{"unsupported", "call of " + fn.String()})
	}
}

func (w *World) findFunc(pkg, name string) *ssa.Function {
	p := w.pkgs[pkg]
	if p == nil {
		panic(pathEnd{"unsupported", "package " + pkg + " not loaded"})
	}
	f := p.Func(name)
	if f == nil {
		panic(pathEnd{"unsupported", "function " + pkg + "." + name})
	}
	return f
}

func (w *World) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	return w.prog.LookupMethod(t, m.Pkg(), m.Name())
}

func stack() string { return string(debug.Stack()) }

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(3)
}

// ensureInit runs the initialiser of a package once per worker (before or between paths).
func (in *Interp) ensureInit(p *ssa.Package) {
	if p == nil || in.inited[p] {
		return
	}
	in.inited[p] = true
	if !interpretable(p.Pkg.Path()) {
		return
	}
	initFn := p.Func("init")
	if initFn == nil {
		return
	}
	saveBase, savePC, saveSteps, saveRace, saveDel := in.inBase, in.pc, in.steps, in.raceOn, in.delays
	saveSeen := in.fnSeen
	in.fnSeen = map[*ssa.Function]bool{}
	in.inBase, in.raceOn, in.delays = true, false, 0
	th := in.cur
	if th == nil {
		th = &Thread{}
	}
	fi := in.info(initFn)
	fr := &frame{in: in, th: th, fn: initFn, info: fi, env: make([]Value, fi.n), block: initFn.Blocks[0]}
	fr.caller = &frame{in: in, th: th, fn: initFn}
	fr.run()
	in.inBase, in.pc, in.steps, in.raceOn, in.delays = saveBase, savePC, saveSteps, saveRace, saveDel
	in.fnSeen = saveSeen
}
