package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

type replayFile struct {
	Property string         `json:"property"`
	Pkg      string         `json:"pkg"`
	Func     string         `json:"func"`
	CPU      int            `json:"cpu"`
	Kind     string         `json:"kind"`
	Msg      string         `json:"msg"`
	Sched    bool           `json:"sched"`
	Params   map[string]int `json:"params"`
	Inputs   []ReplayInput  `json:"inputs"`
	Detail   string         `json:"detail,omitempty"`
}

// nativeBins builds and caches the native replay binaries.
type nativeBins struct {
	dir  string
	mu   sync.Mutex
	bins map[string]string
	errs map[string]error
	skip map[string]bool
}

func newNative(dropped []string) *nativeBins {
	d, err := os.MkdirTemp("", "verif-native-")
	if err != nil {
		fatal(err)
	}
	n := &nativeBins{dir: d, bins: map[string]string{}, errs: map[string]error{}, skip: map[string]bool{}}
	for _, x := range dropped {
		n.skip[x] = true
	}
	return n
}

const quietSrc = `package PKGNAME

import "github.com/rs/zerolog"

func init() { zerolog.SetGlobalLevel(zerolog.Disabled) }
`

func (n *nativeBins) close() { os.RemoveAll(n.dir) }

const replayTest = `package PKGNAME

import (
	"fmt"
	"os"
	"testing"
)

func TestVerifReplay(t *testing.T) {
	f := os.Getenv("VERIF_REPLAY")
	if f == "" {
		t.Skip()
	}
	if m := verifLoad(f); m != "" {
		fmt.Println("VERIF-RESULT " + m)
		return
	}
	h := map[string]func(){
HARNESSES	}[verifRT.r.Func]
	if h == nil {
		fmt.Println("VERIF-RESULT DIVERGED no harness")
		return
	}
	fmt.Println("VERIF-RESULT " + verifRun(h))
}
`

const yieldSrc = `package PKGNAME

import (
	"os"
	"runtime"
	"strconv"
	"time"
)

var verifYieldSeed = func() int {
	s, _ := strconv.Atoi(os.Getenv("VERIF_YIELD"))
	return s
}()
var verifYieldState = uint64(verifYieldSeed)*0x9e3779b97f4a7c15 + 1
var verifYieldHits [1 << 14]uint8

//go:norace
func verifYieldMix(x uint64) uint64 {
	x ^= x >> 30
	x *= 0xbf58476d1ce4e5b9
	x ^= x >> 27
	x *= 0x94d049bb133111eb
	return x ^ x>>31
}

// verifYield perturbs the schedule: odd seeds everywhere a little, even seeds a lot at a few
// places. It must not synchronise anything, or the race detector would see less.
//
//go:norace
func verifYield(site int) {
	verifYieldState++
	x := verifYieldMix(verifYieldState)
	n := verifYieldHits[site&(1<<14-1)]
	if n < 200 {
		n++
		verifYieldHits[site&(1<<14-1)] = n
	}
	if verifYieldSeed%2 == 0 {
		r := verifYieldMix(uint64(verifYieldSeed)*100003 + uint64(site)*0x9e3779b97f4a7c15)
		if r%5 == 0 && n <= 4 {
			if h := uint8(r / 5 % 3); h == 0 || h == n {
				time.Sleep(20 * time.Millisecond)
			}
		}
		return
	}
	switch k := x % 8; {
	case k < 2:
		time.Sleep(time.Duration(x/8%800) * time.Microsecond)
	case k < 5:
		runtime.Gosched()
	}
}
`

// build returns the replay binary of a package. mode: "", "yield", "race".
func (n *nativeBins) build(pkg, mode string) (string, error) {
	n.mu.Lock()
	defer n.mu.Unlock()
	key := pkg + "-" + mode
	if b, ok := n.bins[key]; ok {
		return b, n.errs[key]
	}
	b, err := n.build1(pkg, mode, key, mode != "")
	if err != nil && mode != "" {
		// without perturbation of the schedule
		b, err = n.build1(pkg, mode, key, false)
	}
	n.bins[key], n.errs[key] = b, err
	return b, err
}

func (n *nativeBins) build1(pkg, mode, key string, perturb bool) (string, error) {
	src := filepath.Join(n.dir, "src-"+key)
	if err := os.MkdirAll(src, 0o755); err != nil {
		return "", err
	}
	repl := map[string]string{}
	put := func(target string, content []byte) error {
		p := filepath.Join(src, strings.ReplaceAll(strings.TrimPrefix(target, "/"), "/", "_"))
		repl[target] = p
		return os.WriteFile(p, content, 0o644)
	}
	funcs := map[string]bool{}
	for p, c := range overlayFiles(n.skip, true) {
		if err := put(p, c); err != nil {
			return "", err
		}
		if filepath.Dir(p) == filepath.Clean(filepath.Join(repoDir, pkgDirs[pkg])) {
			for _, r := range parseDirectives(pkg, p, string(c)) {
				funcs[r.Func] = true
			}
		}
	}
	var names []string
	for f := range funcs {
		names = append(names, f)
	}
	sort.Strings(names)
	var hb strings.Builder
	for _, f := range names {
		fmt.Fprintf(&hb, "\t\t%q: %s,\n", f, f)
	}
	t := strings.ReplaceAll(strings.ReplaceAll(replayTest, "PKGNAME", pkgNames[pkg]), "HARNESSES", hb.String())
	if err := put(filepath.Join(repoDir, pkgDirs[pkg], "zz_verif_replay_test.go"), []byte(t)); err != nil {
		return "", err
	}
	if gm, err := os.ReadFile(filepath.Join(repoDir, "go.mod")); err == nil && strings.Contains(string(gm), "github.com/rs/zerolog") {
		// logging would write to stderr under a lock, which orders the goroutines
		if err := put(filepath.Join(repoDir, pkgDirs[pkg], "zz_verif_quiet_test.go"), []byte(strings.ReplaceAll(quietSrc, "PKGNAME", pkgNames[pkg]))); err != nil {
			return "", err
		}
	}
	if perturb {
		site := 0
		goTargets := goTargets()
		for h, d := range pkgDirs {
			dir := filepath.Join(repoDir, d)
			ents, _ := os.ReadDir(dir)
			for _, e := range ents {
				if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
					continue
				}
				b, err := os.ReadFile(filepath.Join(dir, e.Name()))
				if err != nil {
					return "", err
				}
				if nb, ok := instrument(b, goTargets[h], &site); ok {
					if err := put(filepath.Join(dir, e.Name()), nb); err != nil {
						return "", err
					}
				}
			}
			if err := put(filepath.Join(dir, "zz_verif_yield.go"), []byte(strings.ReplaceAll(yieldSrc, "PKGNAME", pkgNames[h]))); err != nil {
				return "", err
			}
		}
	}
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(src, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(n.dir, "replay-"+key)
	args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-o", bin}
	if mode == "race" {
		args = append(args, "-race")
	}
	args = append(args, "./"+pkgDirs[pkg])
	cmd := exec.Command("go", args...)
	cmd.Dir = repoDir
	cmd.Env = repoEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build failed: %v\n%s", err, out)
	}
	return bin, nil
}

// goTargets returns, per package, the names of the functions started by go statements.
func goTargets() map[string]map[string]bool {
	out := map[string]map[string]bool{}
	for h, d := range pkgDirs {
		out[h] = map[string]bool{}
		dir := filepath.Join(repoDir, d)
		ents, _ := os.ReadDir(dir)
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
				continue
			}
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(dir, e.Name()), nil, parser.SkipObjectResolution)
			if err != nil {
				continue
			}
			ast.Inspect(f, func(x ast.Node) bool {
				if g, ok := x.(*ast.GoStmt); ok {
					switch y := g.Call.Fun.(type) {
					case *ast.Ident:
						out[h][y.Name] = true
					case *ast.SelectorExpr:
						out[h][y.Sel.Name] = true
					}
				}
				return true
			})
		}
	}
	return out
}

// instrument inserts scheduling perturbation before and behind statements that synchronise
// and at the beginning of goroutines.
func instrument(src []byte, targets map[string]bool, site *int) ([]byte, bool) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.SkipObjectResolution)
	if err != nil {
		return nil, false
	}
	changed := false
	var syncs func(s ast.Node) bool
	syncs = func(s ast.Node) bool {
		hit := false
		ast.Inspect(s, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.BlockStmt, *ast.FuncLit:
				return false
			case *ast.GoStmt, *ast.SendStmt, *ast.SelectStmt:
				hit = true
			case *ast.UnaryExpr:
				if y.Op == token.ARROW {
					hit = true
				}
			case *ast.CallExpr:
				if se, ok := y.Fun.(*ast.SelectorExpr); ok {
					switch se.Sel.Name {
					case "Lock", "Unlock", "RLock", "RUnlock", "Add", "Done", "Wait":
						hit = true
					}
				}
				if id, ok := y.Fun.(*ast.Ident); ok && id.Name == "close" {
					hit = true
				}
			}
			return !hit
		})
		return hit
	}
	mk := func() ast.Stmt {
		*site++
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("verifYield"), Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(*site)}}}}
	}
	fix := func(l []ast.Stmt) []ast.Stmt {
		var out []ast.Stmt
		for _, s := range l {
			if syncs(s) {
				if _, lab := s.(*ast.LabeledStmt); !lab {
					out = append(out, mk())
					changed = true
				}
			}
			out = append(out, s)
			if x, ok := s.(*ast.ExprStmt); ok && syncs(x) {
				out = append(out, mk())
			}
			if r, ok := s.(*ast.RangeStmt); ok && r.Body != nil {
				r.Body.List = append(r.Body.List, mk())
				changed = true
			}
		}
		return out
	}
	ast.Inspect(f, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.BlockStmt:
			y.List = fix(y.List)
		case *ast.CaseClause:
			y.Body = fix(y.Body)
		case *ast.CommClause:
			y.Body = fix(y.Body)
		case *ast.FuncDecl:
			if y.Body != nil {
				y.Doc = nil
				if targets[y.Name.Name] {
					y.Body.List = append([]ast.Stmt{mk()}, y.Body.List...)
					changed = true
				}
			}
		}
		return true
	})
	if !changed {
		return nil, false
	}
	// start of every goroutine body
	ast.Inspect(f, func(x ast.Node) bool {
		if g, ok := x.(*ast.GoStmt); ok {
			if fl, ok := g.Call.Fun.(*ast.FuncLit); ok {
				fl.Body.List = append([]ast.Stmt{mk()}, fl.Body.List...)
			}
		}
		return true
	})
	f.Comments = nil
	var b bytes.Buffer
	if err := format.Node(&b, fs, f); err != nil {
		return nil, false
	}
	return b.Bytes(), true
}

// exec1 runs one replay natively: OK, FAIL, PANIC, CRASH, HANG, RACE, DIVERGED or ERROR, and detail.
func (n *nativeBins) exec1(rf *replayFile, mode string, seed int, limit time.Duration) (string, string) {
	bin, err := n.build(rf.Pkg, mode)
	if err != nil {
		return "ERROR", err.Error()
	}
	d, err := os.MkdirTemp(n.dir, "run-")
	if err != nil {
		return "ERROR", err.Error()
	}
	defer os.RemoveAll(d)
	b, _ := json.Marshal(rf)
	f := filepath.Join(d, "replay.json")
	if err := os.WriteFile(f, b, 0o644); err != nil {
		return "ERROR", err.Error()
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	args := []string{bin, "-test.run=^TestVerifReplay$", "-test.timeout=0", "-test.v=false"}
	name := bin
	if rf.CPU > 0 {
		if ts, err := exec.LookPath("taskset"); err == nil {
			name = ts
			args = append([]string{ts, "-c", cpuList(rf.CPU)}, args...)
		}
	}
	cmd := exec.CommandContext(ctx, name, args[1:]...)
	cmd.Dir = d
	cmd.Env = append(repoEnv(), "VERIF_REPLAY="+f, fmt.Sprintf("VERIF_YIELD=%d", seed), "GORACE=halt_on_error=1 exitcode=66")
	out, err := cmd.CombinedOutput()
	s := string(out)
	if ctx.Err() != nil {
		return "HANG", fmt.Sprintf("no result within %v", limit)
	}
	if strings.Contains(s, "WARNING: DATA RACE") {
		return "RACE", cutTo(s, 1500)
	}
	if i := strings.Index(s, "VERIF-RESULT "); i >= 0 {
		l := s[i+len("VERIF-RESULT "):]
		if j := strings.IndexByte(l, '\n'); j >= 0 {
			l = l[:j]
		}
		k, rest, _ := strings.Cut(l, " ")
		return k, rest
	}
	if err != nil {
		if strings.Contains(s, "panic:") || strings.Contains(s, "fatal error:") {
			return "CRASH", cutTo(s, 800)
		}
		return "ERROR", cutTo(s, 400) + " " + err.Error()
	}
	return "ERROR", cutTo(s, 400)
}

var cpuSet = func() []string {
	out, err := exec.Command("taskset", "-pc", fmt.Sprint(os.Getpid())).Output()
	var r []string
	if err == nil {
		if i := strings.LastIndex(string(out), ":"); i >= 0 {
			for _, p := range strings.Split(strings.TrimSpace(string(out)[i+1:]), ",") {
				var a, b int
				if k, _ := fmt.Sscanf(p, "%d-%d", &a, &b); k == 2 {
					for ; a <= b; a++ {
						r = append(r, fmt.Sprint(a))
					}
				} else {
					r = append(r, p)
				}
			}
		}
	}
	if len(r) == 0 {
		r = []string{"0"}
	}
	return r
}()

func cpuList(n int) string {
	if n > len(cpuSet) {
		n = len(cpuSet)
	}
	return strings.Join(cpuSet[:n], ",")
}

func cutTo(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func bad(k string) bool {
	return k == "FAIL" || k == "PANIC" || k == "CRASH" || k == "HANG" || k == "RACE"
}

// confirm replays a counterexample on the real code.
func (n *nativeBins) confirm(rf *replayFile) (bool, string) {
	last := ""
	try := func(mode string, times int, limit time.Duration) (bool, string) {
		for i := 0; i < times; i++ {
			k, d := n.exec1(rf, mode, i+1, limit)
			last = k + " " + d
			if k == "HANG" && limit < 25*time.Second {
				k, d = n.exec1(rf, mode, i+1, 30*time.Second)
			}
			if bad(k) {
				return true, k + " " + d
			}
			if k == "ERROR" {
				return false, last
			}
		}
		return false, last
	}
	if rf.Kind != "race" {
		t := 1
		if rf.Sched {
			t = 5
		}
		if ok, d := try("", t, 12*time.Second); ok {
			return true, d
		}
	}
	if rf.Sched {
		if ok, d := try("race", 8, 30*time.Second); ok {
			return true, d
		}
		if ok, d := try("yield", 60, 12*time.Second); ok {
			return true, d
		}
	}
	return false, last
}

// selftest builds the replay binaries of every package in every mode.
func selftest() int {
	n := newNative(nil)
	defer os.RemoveAll(n.dir)
	rc := 0
	for h := range pkgDirs {
		for _, mode := range []string{"", "yield", "race"} {
			if _, err := n.build1(h, mode, h+"-"+mode, mode != ""); err != nil {
				fmt.Println(h, mode, err)
				rc = 1
			}
		}
	}
	return rc
}
