package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func allRuns() []*RunCfg {
	var out []*RunCfg
	var hs []string
	for h := range pkgDirs {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		ents, _ := os.ReadDir(filepath.Join(verifDir, "harness", h))
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			b, err := os.ReadFile(filepath.Join(verifDir, "harness", h, e.Name()))
			if err != nil {
				fatal(err)
			}
			out = append(out, parseDirectives(h, h+"/"+e.Name(), string(b))...)
		}
	}
	return out
}

func main() {
	if len(os.Args) < 2 {
		fatal("usage: engine check <property> [quick|thorough] | run <harness> | replay <file> | list")
	}
	if d := os.Getenv("VERIF_SLOW"); d != "" {
		n, _ := strconv.Atoi(d)
		dbgSlow = time.Duration(n) * time.Millisecond
	}
	switch os.Args[1] {
	case "list":
		for _, r := range allRuns() {
			fmt.Println(strings.Join(r.Prop, ","), r.Tier, r.label())
		}
	case "check":
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		os.Exit(check(os.Args[2], tier, "", false))
	case "run":
		tier := "quick"
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		os.Exit(check("", tier, os.Args[2], true))
	case "selftest":
		os.Exit(selftest())
	case "replay":
		os.Exit(replayCmd(os.Args[2]))
	default:
		fatal("unknown command")
	}
}

func replayCmd(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal(err)
	}
	var rf replayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fatal(err)
	}
	n := newNative(nil)
	defer n.close()
	ok, d := n.confirm(&rf)
	fmt.Printf("property=%s harness=%s %s\n", rf.Property, rf.Func, d)
	if ok {
		fmt.Println("REPRODUCED")
		return 1
	}
	fmt.Println("NOT REPRODUCED")
	return 0
}

type known struct{ prop, harness, msg, text string }

func knownFindings() []known {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known_findings.txt"))
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "known: "), " :: ")
		k := known{text: text}
		for _, f := range strings.Split(head, " | ") {
			a, v, _ := strings.Cut(f, "=")
			switch strings.TrimSpace(a) {
			case "property":
				k.prop = v
			case "harness":
				k.harness = v
			case "msg":
				k.msg = v
			}
		}
		out = append(out, k)
	}
	return out
}

func check(prop, tier, only string, verbose bool) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	if os.Getenv("VERIF_VERBOSE") != "" {
		verbose = true
	}
	var cfgs []*RunCfg
	need := map[string]bool{}
	for _, c := range allRuns() {
		if only != "" {
			if c.Func != only && !strings.HasPrefix(c.Func, strings.TrimSuffix(only, "*")) || (!strings.HasSuffix(only, "*") && c.Func != only) {
				continue
			}
			if c.Tier == "thorough" && tier != "thorough" {
				continue
			}
		} else {
			in := false
			for _, p := range c.Prop {
				in = in || p == prop
			}
			if !in || (c.Tier == "thorough" && tier != "thorough") {
				continue
			}
		}
		cfgs = append(cfgs, c)
		need[c.Pkg] = true
	}
	if len(cfgs) == 0 {
		fatal("no runs for", prop, only)
	}
	w, err := load(need)
	if err != nil {
		fatal("cannot load /repo:", err)
	}
	if verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs dropped=%v\n", time.Since(t0).Seconds(), w.dropped)
	}
	limit := 560 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	if s := os.Getenv("VERIF_LIMIT"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	after := 200 * time.Second
	if tier == "thorough" {
		after = 0
	}
	if s := os.Getenv("VERIF_AFTER"); s != "" {
		n, _ := strconv.Atoi(s)
		after = time.Duration(n) * time.Second
	}
	ex := &explorer{w: w, afterViol: after, deadline: t0.Add(limit), share: limit * 8 / 10, verbose: verbose}
	var skipped []string
	for _, c := range cfgs {
		path := modPath
		if d := pkgDirs[c.Pkg]; d != "" {
			path += "/" + d
		}
		p := w.pkgs[path]
		if p == nil || p.Func(c.Func) == nil {
			skipped = append(skipped, c.label()+": harness does not type-check against the current tree")
			continue
		}
		ex.runs = append(ex.runs, newRunState(c, p.Func(c.Func)))
	}
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	ex.run(nw)
	symT := time.Since(t0)

	// native replay
	nat := newNative(w.dropped)
	defer nat.close()
	kf := knownFindings()
	repDir := filepath.Join(verifDir, "evidence", "replays")
	os.MkdirAll(repDir, 0o755)
	pid := prop
	if pid == "" {
		pid = "debug"
	}
	var confirmed []*Violation
	var unconfirmed []string
	var mu sync.Mutex
	mkrf := func(r *runState, kind, msg string, sched bool, in []ReplayInput) *replayFile {
		return &replayFile{Property: pid, Pkg: r.cfg.Pkg, Func: r.cfg.Func, CPU: r.cfg.CPU, Kind: kind, Msg: msg, Sched: sched, Params: r.cfg.Params, Inputs: in}
	}
	type job struct {
		r    *runState
		v    *Violation
		in   []ReplayInput
		kind string
	}
	var jobs []job
	for _, r := range ex.runs {
		for _, v := range r.viols {
			jobs = append(jobs, job{r, v, v.Inputs, "viol"})
		}
		for _, in := range r.witness {
			jobs = append(jobs, job{r, nil, in, "witness"})
		}
		for _, in := range r.undec {
			jobs = append(jobs, job{r, nil, in, "undec"})
		}
	}
	jc := make(chan job)
	var wg sync.WaitGroup
	natStart := time.Now()
	natLimit := natStart.Add(200 * time.Second)
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := range jc {
				mu.Lock()
				enough := len(kf) == 0 && (len(confirmed) >= 12 || tier == "quick" && len(confirmed) > 0 && time.Since(natStart) > 60*time.Second)
				mu.Unlock()
				if enough || j.kind != "viol" && time.Now().After(natLimit) || tier == "quick" && time.Since(t0) > limit+230*time.Second {
					continue
				}
				var rf *replayFile
				var ok bool
				var det string
				if j.kind == "viol" {
					rf = mkrf(j.r, j.v.Kind, j.v.Msg, j.v.Sched, j.in)
					ok, det = nat.confirm(rf)
				} else {
					rf = mkrf(j.r, "native", "", false, j.in)
					ok, det = nat.confirm(rf)
				}
				mu.Lock()
				switch {
				case ok:
					v := j.v
					if v == nil {
						v = &Violation{Run: j.r.cfg, Kind: "native", Msg: cutTo(det, 300), Inputs: j.in}
					}
					v.Confirmed, v.Detail = true, det
					confirmed = append(confirmed, v)
				case j.kind == "viol":
					unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s: %s (native: %s)", j.r.cfg.label(), j.v.Kind, j.v.Msg, cutTo(det, 600)))
					if verbose {
						b, _ := json.Marshal(rf)
						fmt.Fprintf(os.Stderr, "UNCONFIRMED %s\n", cutTo(string(b), 1500))
					}
				case strings.HasPrefix(det, "OK"):
					j.r.validated++
				default:
					j.r.diverged++
					if len(j.r.divMsgs) < 3 {
						j.r.divMsgs = append(j.r.divMsgs, cutTo(det, 300))
					}
				}
				mu.Unlock()
			}
		}()
	}
	// violations first, interleaved over the runs
	sort.SliceStable(jobs, func(a, b int) bool { return jobs[a].kind == "viol" && jobs[b].kind != "viol" })
	for _, j := range jobs {
		jc <- j
	}
	close(jc)
	wg.Wait()

	sort.SliceStable(confirmed, func(a, b int) bool {
		if confirmed[a].Run.Func != confirmed[b].Run.Func {
			return confirmed[a].Run.Func < confirmed[b].Run.Func
		}
		return confirmed[a].Msg < confirmed[b].Msg
	})
	rc := 0
	nviol := 0
	knownHit := map[string]bool{}
	for i, v := range confirmed {
		var k *known
		for x := range kf {
			if kf[x].prop == pid && kf[x].harness == v.Run.Func && (kf[x].msg == "" || strings.Contains(v.Msg, kf[x].msg) || strings.Contains(v.Detail, kf[x].msg)) {
				k = &kf[x]
				break
			}
		}
		if k != nil {
			if !knownHit[k.text] {
				knownHit[k.text] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", pid, k.text)
			}
			continue
		}
		nviol++
		if nviol > 10 {
			continue
		}
		rf := mkrf2(pid, v)
		f := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", pid, i))
		b, _ := json.MarshalIndent(rf, "", " ")
		os.WriteFile(f, b, 0o644)
		v.File = f
		fmt.Printf("%s: %s: %s | native: %s\n", v.Run.label(), v.Kind, v.Msg, strings.ReplaceAll(cutTo(v.Detail, 300), "\n", " "))
		fmt.Printf("VIOLATION property=%s replay=%s\n", pid, f)
		rc = 1
	}
	for _, u := range unconfirmed {
		fmt.Println("note: counterexample not reproduced on the real code:", u)
	}
	ev := evidence(pid, tier, seed, w, ex, skipped, unconfirmed, nviol, knownHit, time.Since(t0), symT)
	if prop != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
			fatal(err)
		}
	}
	for _, r := range ex.runs {
		why := ""
		if len(r.why) > 0 {
			var ks []string
			for k, n := range r.why {
				ks = append(ks, fmt.Sprintf("%s (%d)", k, n))
			}
			sort.Strings(ks)
			why = " why=" + cutTo(strings.Join(ks, "; "), 1200)
		}
		if verbose || rc == 0 {
			fmt.Printf("%s: paths=%d ends=%v asserts=%d queries=%d solver=%.1fs validated=%d diverged=%d cut=%q%s\n", r.cfg.label(), r.paths, r.ends, r.asserts, r.q.queries, r.dur.Seconds(), r.validated, r.diverged, r.cut, why)
			for _, m := range r.divMsgs {
				fmt.Println("   diverged:", m)
			}
			for _, l := range r.cfg.Reach {
				if !r.covered[l] {
					fmt.Println("   not reached:", l)
				}
			}
		}
	}
	fmt.Printf("%s %s: %d runs, %d violations, %.1fs\n", pid, tier, len(ex.runs), nviol, time.Since(t0).Seconds())
	return rc
}

func mkrf2(pid string, v *Violation) *replayFile {
	return &replayFile{Property: pid, Pkg: v.Run.Pkg, Func: v.Run.Func, CPU: v.Run.CPU, Kind: v.Kind, Msg: v.Msg, Sched: v.Sched,
		Params: v.Run.Params, Inputs: v.Inputs, Detail: cutTo(v.Detail, 1500)}
}

func evidence(pid, tier string, seed int, w *World, ex *explorer, skipped, unconfirmed []string, nviol int, knownHit map[string]bool, wall, symT time.Duration) map[string]any {
	states, trans, val, div, queries, sat, unsat, unk, hits, asserts := 0, 0, 0, 0, 0, 0, 0, 0, 0, 0
	var dur, maxDur time.Duration
	fns := map[string]bool{}
	var runs []any
	var samples []any
	exhaustive := len(skipped) == 0
	for _, r := range ex.runs {
		states += r.paths
		trans += r.steps
		val += r.validated
		div += r.diverged
		queries += r.q.queries
		sat += r.q.sat
		unsat += r.q.unsat
		unk += r.q.unknown
		hits += r.q.cache + r.q.model
		asserts += r.asserts
		dur += r.dur
		if r.maxDur > maxDur {
			maxDur = r.maxDur
		}
		for f := range r.fns {
			if p := pkgOf(f); p != nil && strings.HasPrefix(p.Pkg.Path(), modPath) {
				n := shortFn(f)
				if !strings.Contains(n, "erif") {
					fns[n] = true
				}
			}
		}
		und := r.ends["unsupported"] + r.ends["limit"] + r.ends["unknown"] + r.ends["internal"]
		complete := r.cut == "" && und == 0
		exhaustive = exhaustive && complete
		var miss []string
		for _, l := range r.cfg.Reach {
			if !r.covered[l] {
				miss = append(miss, l)
			}
		}
		runs = append(runs, map[string]any{"run": r.cfg.label(), "paths": r.paths, "path_ends": r.ends, "assertions": r.asserts,
			"complete_within_bounds": complete, "cut": r.cut, "undecided_paths": und, "undecided_reasons": r.why, "queries": r.q.queries,
			"solver_s": r.dur.Seconds(), "reach_missing": miss, "replayed_natively": r.validated, "replay_diverged": r.diverged,
			"wall_s": r.ended.Sub(r.started).Seconds()})
		if len(samples) < 6 && len(r.witness) > 0 {
			samples = append(samples, map[string]any{"run": r.cfg.label(), "path_model": cutInputs(r.witness[0])})
		}
	}
	var fl []string
	for f := range fns {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	if samples == nil {
		samples = []any{"no completed path"}
	}
	var kh []string
	for k := range knownHit {
		kh = append(kh, k)
	}
	sort.Strings(kh)
	return map[string]any{
		"property": pid, "tier": tier, "seed": seed, "level": "model_checking", "wall_s": wall.Seconds(), "violations": nviol,
		"coverage": map[string]any{
			"states": states, "transitions": trans, "traces_validated_against_impl": val, "samples": samples, "exhaustive": exhaustive,
			"explanation":        "states = symbolic paths explored, transitions = SSA instructions executed symbolically, traces_validated = path models replayed on the native build with the same outcome",
			"replay_diverged":    div,
			"solver_queries":     map[string]any{"issued": queries, "sat": sat, "unsat": unsat, "unknown": unk, "answered_from_cache_or_model": hits},
			"assertions_decided": asserts,
			"solver_s":           dur.Seconds(), "slowest_query_s": maxDur.Seconds(), "symbolic_wall_s": symT.Seconds(),
			"functions_encoded": fl, "runs_and_bounds": runs, "runs_skipped": skipped, "harness_files_dropped": w.dropped,
			"counterexamples_not_reproduced": unconfirmed, "known_findings_hit": kh,
		},
		"assumptions": []string{
			"encoding: go/ssa of the current /repo source plus the standard library packages listed in DESIGN.md; zerolog/time/log calls are no-ops; fmt output is opaque text unless concrete",
			"bounds: every run line gives the harness, its parameters (record counts, payload sizes, token counts), the CPU count and the number of scheduling delays; nothing is claimed beyond them",
			"solver: z3; every counterexample is replayed on the native build before it is reported",
		},
	}
}

func cutInputs(in []ReplayInput) []ReplayInput {
	if len(in) > 12 {
		return in[:12]
	}
	return in
}
