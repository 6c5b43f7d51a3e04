package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type satRes int8

const (
	rUnsat satRes = iota
	rSat
	rUnknown
)

// Solver talks to one z3 process over pipes.
type Solver struct {
	tt      *TermTable
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	emitted map[int32]bool
	cache   map[string]cacheEnt
	models  []map[int32]uint64 // recent models, tried before asking the solver

	queries   int
	cacheHits int
	modelHits int
	sat       int
	unsat     int
	unknown   int
	dur       time.Duration
	maxDur    time.Duration
	timeoutMs int
}

type cacheEnt struct {
	r satRes
	m map[int32]uint64
}

func newSolver(tt *TermTable, timeoutMs int) *Solver {
	return &Solver{tt: tt, cache: map[string]cacheEnt{}, timeoutMs: timeoutMs}
}

var z3Path = func() string {
	for _, p := range []string{"z3-new", "z3"} {
		if q, err := exec.LookPath(p); err == nil {
			return q
		}
	}
	return "z3"
}()

func (s *Solver) start() {
	s.cmd = exec.Command(z3Path, "-in", "-smt2")
	inp, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	outp, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.in = bufio.NewWriterSize(inp, 1<<20)
	s.out = bufio.NewReaderSize(outp, 1<<16)
	s.emitted = map[int32]bool{}
	io.WriteString(s.in, "(set-option :global-declarations true)\n(set-option :produce-models true)\n")
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) emit(t *Term) {
	if t.op == oConst || s.emitted[t.id] {
		return
	}
	s.emitted[t.id] = true
	if t.op == oVar {
		fmt.Fprintf(s.in, "(declare-const %s %s)\n", t.ref(), t.sort.smt())
		return
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s.emit(x)
		}
	}
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, t.sort.smt(), t.def())
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// readSexp reads one balanced s-expression.
func (s *Solver) readSexp() (string, error) {
	var b strings.Builder
	depth, started, bar := 0, false, false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		b.WriteByte(c)
		if bar {
			if c == '|' {
				bar = false
			}
			continue
		}
		switch c {
		case '|':
			bar = true
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		if started && depth == 0 {
			return b.String(), nil
		}
	}
}

// slice keeps the constraints of pc that (transitively) share variables with q.
func slicePC(pc []*Term, q *Term) []*Term {
	if q == nil {
		return pc
	}
	vars := map[int32]bool{}
	for _, v := range q.fv() {
		vars[v] = true
	}
	used := make([]bool, len(pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, p := range pc {
			if used[i] {
				continue
			}
			hit := false
			for _, v := range p.fv() {
				if vars[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				changed = true
				out = append(out, p)
				for _, v := range p.fv() {
					vars[v] = true
				}
			}
		}
	}
	return out
}

// check decides pc /\ q. q may be nil. full disables slicing (to get a model of everything).
func (s *Solver) check(pc []*Term, q *Term, full bool) (satRes, map[int32]uint64) {
	if q != nil && q.isC() {
		if q.k == 0 {
			return rUnsat, nil
		}
		q = nil
		if !full {
			return rSat, nil // the path condition itself is kept satisfiable
		}
	}
	as := pc
	if !full {
		as = slicePC(pc, q)
	}
	all := make([]*Term, 0, len(as)+1)
	all = append(all, as...)
	if q != nil {
		all = append(all, q)
	}
	ids := make([]int, len(all))
	for i, t := range all {
		ids[i] = int(t.id)
	}
	sort.Ints(ids)
	var kb strings.Builder
	for _, i := range ids {
		kb.WriteString(strconv.Itoa(i))
		kb.WriteByte(',')
	}
	key := kb.String()
	if e, ok := s.cache[key]; ok {
		s.cacheHits++
		return e.r, e.m
	}
	if !full {
		for i := len(s.models) - 1; i >= 0; i-- {
			m := s.models[i]
			memo := map[int32]*Term{}
			ok := true
			for j := len(all) - 1; j >= 0; j-- {
				r := s.tt.eval(all[j], m, memo)
				if !r.isC() || r.k == 0 {
					ok = false
					break
				}
			}
			if ok {
				s.modelHits++
				s.cache[key] = cacheEnt{rSat, m}
				return rSat, m
			}
		}
	}
	r, m := s.solve(all)
	s.cache[key] = cacheEnt{r, m}
	if r == rSat && m != nil {
		s.models = append(s.models, m)
		if len(s.models) > 6 {
			s.models = s.models[1:]
		}
	}
	return r, m
}

func hasFP(all []*Term) bool {
	seen := map[int32]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == nil || seen[t.id] {
			return false
		}
		seen[t.id] = true
		if t.sort == sF32 || t.sort == sF64 {
			return true
		}
		return rec(t.a) || rec(t.b) || rec(t.c)
	}
	for _, t := range all {
		if rec(t) {
			return true
		}
	}
	return false
}

func (s *Solver) solve(all []*Term) (satRes, map[int32]uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.dur += d
		if d > s.maxDur {
			s.maxDur = d
		}
		if dbgSlow > 0 && d > dbgSlow {
			fmt.Fprintf(os.Stderr, "slow query %v: %d assertions\n", d, len(all))
			if dd := os.Getenv("VERIF_DUMP"); dd != "" {
				dumpN++
				var b bytes.Buffer
				t := &Solver{tt: s.tt, in: bufio.NewWriter(&b), emitted: map[int32]bool{}}
				for _, x := range all {
					t.emit(x)
					fmt.Fprintf(t.in, "(assert %s)\n", x.ref())
				}
				fmt.Fprintf(t.in, "(check-sat)\n")
				t.in.Flush()
				os.WriteFile(fmt.Sprintf("%s/q%d.smt2", dd, dumpN), b.Bytes(), 0o644)
			}
		}
	}()
	s.queries++
	if len(s.emitted) > 400000 {
		s.stop()
	}
	if s.cmd == nil {
		s.start()
	}
	for _, t := range all {
		s.emit(t)
	}
	var vars []int32
	for _, t := range all {
		vars = mergeVars(vars, t.fv())
	}
	fp := hasFP(all)
	io.WriteString(s.in, "(push 1)\n")
	for _, t := range all {
		fmt.Fprintf(s.in, "(assert %s)\n", t.ref())
	}
	try := func(cmd string, ms int) (satRes, bool) {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n%s\n", ms, cmd)
		s.in.Flush()
		for {
			l, err := s.readLine()
			if err != nil {
				return rUnknown, false
			}
			switch l {
			case "sat":
				return rSat, true
			case "unsat":
				return rUnsat, true
			case "unknown", "timeout":
				return rUnknown, true
			case "":
				continue
			}
			if strings.HasPrefix(l, "(error") {
				// an error leaves the answers out of step with the questions: drop
				// this solver process and report the query as undecided
				fmt.Fprintln(os.Stderr, "z3:", l)
				return rUnknown, false
			}
		}
	}
	var r satRes
	var alive bool
	if fp {
		r, alive = try("(check-sat-using (or-else (try-for qffpbv "+strconv.Itoa(s.timeoutMs)+") fail))", s.timeoutMs)
	} else {
		r, alive = try("(check-sat-using (try-for qfbv 20000))", 20000)
		if alive && r == rUnknown {
			r, alive = try("(check-sat-using (try-for qfbv "+strconv.Itoa(s.timeoutMs)+"))", s.timeoutMs)
		}
	}
	if !alive {
		s.stop()
		s.unknown++
		return rUnknown, nil
	}
	var m map[int32]uint64
	if r == rSat {
		m = map[int32]uint64{}
		if len(vars) > 0 {
			io.WriteString(s.in, "(get-value (")
			for _, v := range vars {
				io.WriteString(s.in, s.tt.all[v].ref())
				io.WriteString(s.in, " ")
			}
			io.WriteString(s.in, "))\n")
			s.in.Flush()
			txt, err := s.readSexp()
			if err != nil {
				s.stop()
				s.unknown++
				return rUnknown, nil
			}
			vals := parseValues(txt)
			for i, v := range vars {
				if i < len(vals) {
					m[v] = vals[i]
				}
			}
		}
		s.sat++
	} else if r == rUnsat {
		s.unsat++
	} else {
		s.unknown++
	}
	io.WriteString(s.in, "(pop 1)\n")
	return r, m
}

// parseValues parses ((name value) ...) and returns the values in order.
func parseValues(txt string) []uint64 {
	toks := tokenizeSexp(txt)
	pos := 0
	var parse func() any
	parse = func() any {
		if toks[pos] == "(" {
			pos++
			var l []any
			for toks[pos] != ")" {
				l = append(l, parse())
			}
			pos++
			return l
		}
		pos++
		return toks[pos-1]
	}
	l, _ := parse().([]any)
	var out []uint64
	for _, e := range l {
		p, _ := e.([]any)
		if len(p) != 2 {
			out = append(out, 0)
			continue
		}
		out = append(out, sexpVal(p[1]))
	}
	return out
}

func bitsOf(s string) (uint64, int) {
	if strings.HasPrefix(s, "#b") {
		v, _ := strconv.ParseUint(s[2:], 2, 64)
		return v, len(s) - 2
	}
	if strings.HasPrefix(s, "#x") {
		v, _ := strconv.ParseUint(s[2:], 16, 64)
		return v, 4 * (len(s) - 2)
	}
	return 0, 0
}

func sexpVal(v any) uint64 {
	switch x := v.(type) {
	case string:
		if x == "true" {
			return 1
		}
		if x == "false" {
			return 0
		}
		b, _ := bitsOf(x)
		return b
	case []any:
		if len(x) == 0 {
			return 0
		}
		if h, ok := x[0].(string); ok {
			if h == "fp" && len(x) == 4 {
				s, _ := bitsOf(x[1].(string))
				e, ew := bitsOf(x[2].(string))
				m, mw := bitsOf(x[3].(string))
				return s<<uint(ew+mw) | e<<uint(mw) | m
			}
			if h == "_" && len(x) >= 2 {
				n, _ := x[1].(string)
				if strings.HasPrefix(n, "bv") {
					u, _ := strconv.ParseUint(n[2:], 10, 64)
					return u
				}
				is32 := len(x) >= 3 && x[2].(string) == "8"
				var f float64
				switch n {
				case "+oo":
					f = math.Inf(1)
				case "-oo":
					f = math.Inf(-1)
				case "NaN":
					f = math.NaN()
				case "+zero":
					f = 0
				case "-zero":
					f = math.Copysign(0, -1)
				}
				if is32 {
					return uint64(math.Float32bits(float32(f)))
				}
				return math.Float64bits(f)
			}
		}
	}
	return 0
}

func tokenizeSexp(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '|':
			j := i + 1
			for j < len(s) && s[j] != '|' {
				j++
			}
			out = append(out, s[i:j+1])
			i = j + 1
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

var dbgSlow time.Duration
var dumpN int
