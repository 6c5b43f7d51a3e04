package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// RunCfg is one harness with one set of bounds.
type RunCfg struct {
	Prop     []string
	Tier     string
	Pkg      string // harness directory: root, a2l, ihex32, srec19
	File     string
	Func     string
	CPU      int
	Delays   int
	Race     bool
	MapOrder bool
	Params   map[string]int
	Reach    []string
	MaxSteps int
	MaxPaths int
	Timeout  time.Duration
	QueryMs  int
}

func (c *RunCfg) label() string {
	var ks []string
	for k := range c.Params {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	fmt.Fprintf(&b, "%s/%s cpu=%d", c.Pkg, c.Func, c.CPU)
	if c.Delays > 0 {
		fmt.Fprintf(&b, " delays=%d", c.Delays)
	}
	if c.Race {
		b.WriteString(" race=1")
	}
	if c.MapOrder {
		b.WriteString(" maporder=1")
	}
	for _, k := range ks {
		fmt.Fprintf(&b, " %s=%d", k, c.Params[k])
	}
	return b.String()
}

// parseDirectives reads the //verif:run lines of a harness file.
func parseDirectives(pkg, file, src string) []*RunCfg {
	var out, pend []*RunCfg
	for _, l := range strings.Split(src, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "//verif:run ") {
			f := strings.Fields(strings.TrimPrefix(l, "//verif:run "))
			if len(f) < 2 {
				fatal("bad directive:", l)
			}
			c := &RunCfg{Prop: strings.Split(f[0], ","), Tier: f[1], Pkg: pkg, File: file, CPU: 1, Params: map[string]int{},
				MaxSteps: 4000000, MaxPaths: 2000000, Timeout: 0, QueryMs: 60000}
			for _, kv := range f[2:] {
				k, v, _ := strings.Cut(kv, "=")
				n, _ := strconv.Atoi(v)
				switch k {
				case "cpu":
					c.CPU = n
				case "delays":
					c.Delays = n
				case "race":
					c.Race = n != 0
				case "maporder":
					c.MapOrder = n != 0
				case "steps":
					c.MaxSteps = n
				case "paths":
					c.MaxPaths = n
				case "timeout":
					c.Timeout = time.Duration(n) * time.Second
				case "query":
					c.QueryMs = n * 1000
				case "reach":
					c.Reach = strings.Split(v, ",")
				default:
					c.Params[k] = n
				}
			}
			pend = append(pend, c)
			continue
		}
		if strings.HasPrefix(l, "func ") && len(pend) > 0 {
			name := strings.TrimPrefix(l, "func ")
			if i := strings.Index(name, "("); i > 0 {
				name = name[:i]
			}
			for _, c := range pend {
				c.Func = name
			}
			out = append(out, pend...)
			pend = nil
		}
	}
	return out
}

func newInterp(w *World, cfg *RunCfg) *Interp {
	tt := newTermTable()
	in := &Interp{w: w, tt: tt, cfg: cfg, sol: newSolver(tt, cfg.QueryMs)}
	in.globals = map[*ssa.Global]*Value{}
	in.inited = map[*ssa.Package]bool{}
	in.consts = map[*ssa.Const]Value{}
	in.infos = map[*ssa.Function]*fnInfo{}
	in.strCode = map[string]uint64{}
	in.codeStr = map[uint64]string{}
	in.regexps = map[*Value]string{}
	in.fnSeen = map[*ssa.Function]bool{}
	in.covered = map[string]bool{}
	return in
}

// runPath executes one path of the harness given by the decision prefix.
func (in *Interp) runPath(fn *ssa.Function, prefix []Decision) pathEnd {
	in.prefix = prefix
	in.dec = make([]Decision, 0, len(prefix)+64)
	in.pc = nil
	in.known = map[*Term]bool{}
	in.steps = 0
	in.evStep, in.evSeq, in.pi = 0, 0, 0
	in.journal = in.journal[:0]
	in.mapUndo = nil
	in.inBase = false
	in.nameCnt = map[string]int{}
	in.inputs = nil
	in.derived = map[string]*Atom{}
	in.codeCnt = 0
	in.files = map[string]Value{}
	in.open = map[*Value]*openFile{}
	in.threads = nil
	in.mutexes = map[*Value]*mutexState{}
	in.wgs = map[*Value]*wgState{}
	in.onces = map[*Value]bool{}
	in.atomvc = map[*Value]vclock{}
	in.acc = map[*Value]*access{}
	in.raceOn = in.cfg.Race
	in.delays = in.cfg.Delays
	in.mapOrder = in.cfg.MapOrder
	in.newPaths = nil
	in.pathViol = nil
	in.end = make(chan pathEnd, 1)
	in.builders = map[*Value]Value{}
	in.createFails = false
	th := in.newThread(nil)
	in.cur = th
	wg := &in.w.wgFor(in).wg
	in.startThread(th, wg, func(fr *frame) {
		in.ensureInit(fn.Pkg)
		in.call(fr, fn, nil, nil, 0)
	})
	th.resume <- true
	e := <-in.end
	// inputs of a path that ended undecided, for native validation
	for _, t := range in.threads {
		select {
		case t.resume <- false:
		default:
		}
	}
	wg.Wait()
	for i := len(in.journal) - 1; i >= 0; i-- {
		*in.journal[i].p = in.journal[i].v
	}
	for i := len(in.mapUndo) - 1; i >= 0; i-- {
		in.mapUndo[i]()
	}
	return e
}

// runState is the exploration state of one run.
type runState struct {
	cfg                 *RunCfg
	fn                  *ssa.Function
	stack               [][]Decision
	active              int
	started             time.Time
	ended               time.Time
	paths               int
	steps               int
	asserts             int
	ends                map[string]int
	why                 map[string]int
	cut                 string
	viols               []*Violation
	violKey             map[string]int
	witness             [][]ReplayInput
	undec               [][]ReplayInput
	covered             map[string]bool
	fns                 map[*ssa.Function]bool
	q                   struct{ queries, cache, model, sat, unsat, unknown int }
	dur                 time.Duration
	maxDur              time.Duration
	used                time.Duration // over all workers
	interps             []*Interp
	skipped             string
	validated, diverged int
	divMsgs             []string
}

type explorer struct {
	w        *World
	mu       sync.Mutex
	cond     *sync.Cond
	runs     []*runState
	deadline time.Time
	idle     int
	share    time.Duration
	viols    int
	// in the quick tier the exploration ends some time behind the first counterexample
	firstViol time.Time
	afterViol time.Duration
	verbose   bool
}

func (e *explorer) pick() (*runState, []Decision) {
	if r, p := e.pick1(true); r != nil {
		return r, p
	}
	return e.pick1(false)
}

// pick1 takes a path of the first run that has one; fair: of those that have not used up their share.
func (e *explorer) pick1(fair bool) (*runState, []Decision) {
	now := time.Now()
	for _, r := range e.runs {
		if len(r.stack) == 0 || fair && r.used > e.share {
			continue
		}
		if r.started.IsZero() {
			r.started = now
		}
		if r.cut == "" {
			if now.After(e.deadline) {
				r.cut = "check deadline"
			} else if r.cfg.Timeout > 0 && now.Sub(r.started) > r.cfg.Timeout {
				r.cut = "run timeout"
			} else if r.paths > r.cfg.MaxPaths {
				r.cut = "path limit"
			} else if len(r.viols) >= 12 || e.viols >= 60 {
				r.cut = "enough counterexamples"
			} else if !e.firstViol.IsZero() && e.afterViol > 0 && now.Sub(e.firstViol) > e.afterViol {
				r.cut = "time behind the first counterexample"
			} else if r.ends["limit"] >= 40 {
				r.cut = "enough paths beyond the step bound"
			}
		}
		if r.cut != "" {
			r.stack = nil
			continue
		}
		p := r.stack[len(r.stack)-1]
		r.stack = r.stack[:len(r.stack)-1]
		r.active++
		return r, p
	}
	return nil, nil
}

func (e *explorer) worker() {
	var cur *runState
	var in *Interp
	release := func() {
		if cur != nil && in != nil {
			cur.interps = append(cur.interps, in)
		}
		cur, in = nil, nil
	}
	for {
		e.mu.Lock()
		r, p := e.pick()
		for r == nil {
			busy := false
			for _, x := range e.runs {
				if x.active > 0 {
					busy = true
				}
			}
			if !busy {
				release()
				e.mu.Unlock()
				e.cond.Broadcast()
				return
			}
			e.cond.Wait()
			r, p = e.pick()
		}
		if r != cur {
			release()
			cur = r
			if n := len(r.interps); n > 0 {
				in = r.interps[n-1]
				r.interps = r.interps[:n-1]
			}
		}
		e.mu.Unlock()
		if in == nil {
			in = newInterp(e.w, r.cfg)
		}
		began := time.Now()
		end := in.runPath(r.fn, p)
		took := time.Since(began)
		var wit []ReplayInput
		undec := false
		switch end.kind {
		case "done":
			if end.msg == "" {
				wit, _ = e.wantWitness(r, in)
			}
		case "unsupported", "limit", "unknown", "internal":
			undec = true
			e.mu.Lock()
			want := len(r.undec) < 200
			e.mu.Unlock()
			if want {
				wit, _ = in.modelInputs()
			}
		}
		e.mu.Lock()
		r.active--
		r.paths++
		r.used += took
		r.steps += in.steps
		r.asserts += in.asserts
		in.asserts = 0
		r.ends[end.kind]++
		if end.msg != "" && end.kind != "done" {
			r.why[end.kind+": "+end.msg]++
		}
		for _, v := range in.pathViol {
			k := v.Kind + v.Msg
			if r.violKey[k] < 3 {
				r.viols = append(r.viols, v)
				if e.firstViol.IsZero() {
					e.firstViol = time.Now()
				}
				e.viols++
			}
			r.violKey[k]++
		}
		if wit != nil {
			if undec {
				r.undec = append(r.undec, wit)
			} else {
				r.witness = append(r.witness, wit)
			}
		}
		if r.cut == "" {
			r.stack = append(r.stack, in.newPaths...)
		}
		for l := range in.covered {
			r.covered[l] = true
		}
		for f := range in.fnSeen {
			r.fns[f] = true
		}
		in.fnSeen = map[*ssa.Function]bool{}
		s := in.sol
		r.q.queries += s.queries
		r.q.cache += s.cacheHits
		r.q.model += s.modelHits
		r.q.sat += s.sat
		r.q.unsat += s.unsat
		r.q.unknown += s.unknown
		r.dur += s.dur
		if s.maxDur > r.maxDur {
			r.maxDur = s.maxDur
		}
		s.queries, s.cacheHits, s.modelHits, s.sat, s.unsat, s.unknown, s.dur = 0, 0, 0, 0, 0, 0, 0
		if r.active == 0 && len(r.stack) == 0 {
			r.ended = time.Now()
			for _, x := range r.interps {
				x.sol.stop()
			}
			r.interps = nil
			in.sol.stop()
			in, cur = nil, nil
			if e.verbose {
				fmt.Fprintf(os.Stderr, "  %s: paths=%d %v queries=%d %.1fs\n", r.cfg.label(), r.paths, r.ends, r.q.queries, r.ended.Sub(r.started).Seconds())
			}
		} else if len(in.tt.all) > 4000000 {
			in.sol.stop()
			in = nil
			cur = nil
		}
		e.mu.Unlock()
		e.cond.Broadcast()
	}
}

// wantWitness keeps models of some completed paths for native validation.
func (e *explorer) wantWitness(r *runState, in *Interp) ([]ReplayInput, bool) {
	e.mu.Lock()
	n := len(r.witness)
	p := r.paths
	e.mu.Unlock()
	if n >= 40 || (n >= 8 && p%7 != 0) {
		return nil, false
	}
	return in.modelInputs()
}

func (e *explorer) run(workers int) {
	e.cond = sync.NewCond(&e.mu)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.worker()
		}()
	}
	wg.Wait()
	for _, r := range e.runs {
		for _, in := range r.interps {
			in.sol.stop()
		}
		r.interps = nil
		if r.ended.IsZero() {
			r.ended = time.Now()
		}
	}
}

func newRunState(cfg *RunCfg, fn *ssa.Function) *runState {
	return &runState{cfg: cfg, fn: fn, stack: [][]Decision{{}}, ends: map[string]int{}, why: map[string]int{},
		violKey: map[string]int{}, covered: map[string]bool{}, fns: map[*ssa.Function]bool{}}
}
