package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// path-ending conditions, thrown as Go panics inside the interpreter
type pathEnd struct {
	kind string // "assume", "unsupported", "limit", "killed", "unknown", "done"
	msg  string
}

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v   Value
	msg string
	pos string
}

type Decision struct {
	K uint8  // 0/1 forked branch, 2/3 implied branch, 4 choice, 5 value
	V uint64 // choice or value
	// At is the place of the decision within its path. It does not depend on which terms happen to
	// simplify to constants, so a path can be replayed by another worker.
	At uint64
}

// place numbers the decisions of a path by the instruction they belong to.
func (in *Interp) place() uint64 {
	if in.evStep != in.steps {
		in.evStep, in.evSeq = in.steps, 0
	}
	in.evSeq++
	return uint64(in.steps)<<34 | uint64(in.evSeq&0xfffff)<<14
}

// recorded looks for the decision of the given place in the prefix; inside is true as long as
// later decisions of the prefix remain.
func (in *Interp) recorded(at uint64) (d Decision, hit, inside bool) {
	for in.pi < len(in.prefix) && in.prefix[in.pi].At < at {
		in.dec = append(in.dec, in.prefix[in.pi])
		in.pi++
	}
	if in.pi == len(in.prefix) {
		return
	}
	if d = in.prefix[in.pi]; d.At == at {
		in.dec = append(in.dec, d)
		in.pi++
		return d, true, true
	}
	return d, false, true
}

func (in *Interp) decide(k uint8, v, at uint64) {
	in.dec = append(in.dec, Decision{k, v, at})
}

func (in *Interp) fork(k uint8, v, at uint64) {
	alt := make([]Decision, len(in.dec), len(in.dec)+1)
	copy(alt, in.dec)
	in.newPaths = append(in.newPaths, append(alt, Decision{k, v, at}))
}

type Interp struct {
	w       *World
	tt      *TermTable
	sol     *Solver
	cfg     *RunCfg
	globals map[*ssa.Global]*Value
	inited  map[*ssa.Package]bool
	consts  map[*ssa.Const]Value
	infos   map[*ssa.Function]*fnInfo
	strCode map[string]uint64
	codeStr map[uint64]string
	derived map[string]*Atom
	codeCnt uint64
	baseCnt uint64

	// per path
	prefix      []Decision
	dec         []Decision
	pc          []*Term
	known       map[*Term]bool
	steps       int
	evStep      int
	evSeq       int
	pi          int // next decision of prefix
	journal     []undo
	mapUndo     []func()
	inBase      bool
	nameCnt     map[string]int
	inputs      []input
	inputIdx    map[string]int
	atoms       map[*Term]*Atom
	files       map[string]Value
	open        map[*Value]*openFile
	nthreads    int
	threads     []*Thread
	cur         *Thread
	mutexes     map[*Value]*mutexState
	wgs         map[*Value]*wgState
	onces       map[*Value]bool
	atomvc      map[*Value]vclock
	acc         map[*Value]*access
	raceOn      bool
	delays      int
	mapOrder    bool
	newPaths    [][]Decision
	pathViol    []*Violation
	covered     map[string]bool
	trace       []string
	end         chan pathEnd
	killing     bool
	fnSeen      map[*ssa.Function]bool
	asserts     int
	noted       []string
	loopCnt     map[*ssa.BasicBlock]int
	regexps     map[*Value]string
	panicsOK    bool
	builders    map[*Value]Value
	createFails bool
}

type undo struct {
	p *Value
	v Value
}

type input struct {
	Name string
	Kind string // "u" integer/bool, "b" bytes, "tok"
	t    *Term
	bs   []*Term
	at   *Atom
	w    int
}

type fnInfo struct {
	slots  map[ssa.Value]int32
	n      int
	defers bool
}

type frame struct {
	in        *Interp
	th        *Thread
	fn        *ssa.Function
	info      *fnInfo
	env       []Value
	fvs       []Value
	args      []Value
	caller    *frame
	block     *ssa.BasicBlock
	prev      *ssa.BasicBlock
	defers    []func()
	result    Value
	panicVal  *targetPanic
	recovered bool
	depth     int
	iterCnt   map[*ssa.BasicBlock]int
}

func (in *Interp) unsupported(msg string) {
	panic(pathEnd{"unsupported", msg})
}

func (in *Interp) assumeRaw(c *Term) {
	if c.isC() {
		if c.k == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	in.pc = append(in.pc, c)
	in.known[c] = true
	in.known[in.tt.not(c)] = false
}

// assume adds a constraint, ending the path if it contradicts.
func (in *Interp) assume(c *Term) {
	at := in.place()
	if c.isC() {
		if c.k == 0 {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if v, ok := in.known[c]; ok {
		if !v {
			panic(pathEnd{"assume", ""})
		}
		return
	}
	if _, _, inside := in.recorded(at); inside {
		in.assumeRaw(c)
		return
	}
	r, _ := in.sol.check(in.pc, c, false)
	if r == rUnsat {
		panic(pathEnd{"assume", ""})
	}
	if r == rUnknown {
		panic(pathEnd{"unknown", "assumption undecided"})
	}
	in.decide(2, 1, at)
	in.assumeRaw(c)
}

// branch decides a condition; both sides are explored when both are feasible.
func (in *Interp) branch(c *Term) bool { return in.branchAt(c, in.place()) }

func (in *Interp) branchAt(c *Term, at uint64) bool {
	if !c.isC() {
		c = in.tt.canon(c)
	}
	if c.isC() {
		return c.k != 0
	}
	if v, ok := in.known[c]; ok {
		return v
	}
	nc := in.tt.not(c)
	d, hit, inside := in.recorded(at)
	if hit {
		switch d.K {
		case 0:
			in.assumeRaw(nc)
			return false
		case 1:
			in.assumeRaw(c)
			return true
		case 2:
			in.known[c] = false
			in.known[nc] = true
			return false
		case 3:
			in.known[c] = true
			in.known[nc] = false
			return true
		}
		panic(fmt.Sprintf("replay mismatch at decision %d: %v", len(in.dec), d))
	}
	rt, _ := in.sol.check(in.pc, c, false)
	if rt == rUnsat {
		in.decide(2, 0, at)
		in.known[c] = false
		in.known[nc] = true
		return false
	}
	rf, _ := in.sol.check(in.pc, nc, false)
	if rf == rUnsat {
		in.decide(3, 0, at)
		in.known[c] = true
		in.known[nc] = false
		return true
	}
	if rt == rUnknown || rf == rUnknown {
		panic(pathEnd{"unknown", "branch undecided by the solver"})
	}
	if inside {
		panic(fmt.Sprintf("replay mismatch: decision without record before %v", d))
	}
	in.fork(0, 0, at)
	in.decide(1, 0, at)
	in.assumeRaw(c)
	return true
}

// choose is an n-way nondeterministic choice.
func (in *Interp) choose(n int) int {
	at := in.place()
	if n <= 1 {
		return 0
	}
	d, hit, inside := in.recorded(at)
	if hit && d.K == 4 {
		return int(d.V)
	}
	if inside {
		panic(fmt.Sprintf("replay mismatch at choice %d: %v", len(in.dec), d))
	}
	for k := n - 1; k >= 1; k-- {
		in.fork(4, uint64(k), at)
	}
	in.decide(4, 0, at)
	return 0
}

// concretize forks over all feasible values of t.
func (in *Interp) concretize(t *Term) uint64 {
	for at := in.place(); ; at += 2 {
		if t.isC() {
			return t.k
		}
		var v uint64
		d, hit, inside := in.recorded(at)
		if hit {
			if d.K != 5 {
				panic(fmt.Sprintf("replay mismatch at value %d: %v", len(in.dec), d))
			}
			v = d.V
		} else {
			// the witness value: solve with a fresh constraint mentioning t
			r, m := in.sol.check(in.pc, in.tt.cmp(oUle, in.tt.bv(0, t.sort), t), false)
			_ = r
			if m == nil {
				// ule 0 folds to true; ask with t itself
				probe := in.tt.eq(t, in.tt.variable(fmt.Sprintf("probe!%d", t.sort), t.sort))
				r, m = in.sol.check(in.pc, probe, false)
				if r != rSat {
					panic(pathEnd{"unknown", "value undecided"})
				}
			}
			e := in.tt.eval(t, m, map[int32]*Term{})
			if !e.isC() {
				panic(pathEnd{"unknown", "value not evaluable"})
			}
			v = e.k
			if !inside {
				in.decide(5, v, at)
			}
		}
		if in.branchAt(in.tt.eq(t, in.tt.bv(v, t.sort)), at+1) {
			return v
		}
	}
}

func (in *Interp) concInt(v Value) int {
	t := v.(*Term)
	k := in.concretize(t)
	return int(sx(k, t.sort))
}

func (in *Interp) store(p *Value, v Value) {
	if in.inBase {
		*p = v
		return
	}
	in.journal = append(in.journal, undo{p, *p})
	*p = v
}

// storeVal stores v (of type t) into cell p element-wise so that interior pointers stay valid.
func (in *Interp) storeVal(p *Value, v Value) {
	switch x := v.(type) {
	case Struct:
		d, ok := (*p).(Struct)
		if ok && len(d) == len(x) {
			for i := range x {
				in.storeVal(&d[i], x[i])
			}
			return
		}
	case *Arr:
		d, ok := (*p).(*Arr)
		if ok && d.n == x.n {
			for i := 0; i < x.n; i++ {
				if x.blks[i/blk] == nil && d.blks[i/blk] == nil {
					continue
				}
				in.storeVal(d.at(i), *x.at(i))
			}
			return
		}
	}
	in.store(p, copyVal(v))
}

func (in *Interp) panicT(fr *frame, msg string, pos token.Pos) {
	p := ""
	if pos.IsValid() {
		p = in.w.prog.Fset.Position(pos).String()
	} else if fr != nil && fr.fn != nil {
		p = fr.fn.String()
	}
	panic(&targetPanic{v: Iface{t: types.Typ[types.String], v: msg}, msg: msg, pos: p})
}

// ---- functions ----

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := in.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{slots: map[ssa.Value]int32{}}
	add := func(v ssa.Value) {
		fi.slots[v] = int32(fi.n)
		fi.n++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				add(v)
			}
			switch ins.(type) {
			case *ssa.Defer:
				fi.defers = true
			}
		}
	}
	if fn.Recover != nil {
		fi.defers = true
	}
	in.infos[fn] = fi
	return fi
}

func (fr *frame) get(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return fr.in.constVal(x)
	case *ssa.Global:
		return fr.in.global(x)
	case *ssa.Function:
		return &Fn{fn: x}
	case *ssa.Builtin:
		return &Fn{bi: x}
	}
	return fr.env[fr.info.slots[v]]
}

func (fr *frame) set(v ssa.Value, x Value) {
	fr.env[fr.info.slots[v]] = x
}

func (in *Interp) global(g *ssa.Global) *Value {
	if c, ok := in.globals[g]; ok {
		return c
	}
	c := new(Value)
	*c = in.zero(g.Type().(*types.Pointer).Elem())
	in.globals[g] = c
	in.ensureInit(g.Pkg)
	return c
}

func (in *Interp) constVal(c *ssa.Const) Value {
	if v, ok := in.consts[c]; ok {
		return v
	}
	var v Value
	t := c.Type()
	if c.Value == nil {
		v = in.zero(t)
		if _, ok := v.(Struct); ok {
			return v
		}
		if _, ok := v.(*Arr); ok {
			return v
		}
	} else if b, ok := t.Underlying().(*types.Basic); ok {
		if w, _, isInt := intSort(b); isInt {
			cv := constant.ToInt(c.Value)
			if u, ok := constant.Uint64Val(cv); ok {
				v = in.tt.bv(u, w)
			} else {
				i, _ := constant.Int64Val(cv)
				v = in.tt.bv(uint64(i), w)
			}
		} else {
			switch b.Kind() {
			case types.Bool, types.UntypedBool:
				v = in.tt.boolC(constant.BoolVal(c.Value))
			case types.String, types.UntypedString:
				if c.Value.Kind() == constant.String {
					v = constant.StringVal(c.Value)
				} else {
					i, _ := constant.Int64Val(c.Value)
					v = string(rune(i))
				}
			case types.Float32:
				f, _ := constant.Float32Val(c.Value)
				v = in.tt.f32(f)
			case types.Float64, types.UntypedFloat:
				f, _ := constant.Float64Val(c.Value)
				v = in.tt.f64(f)
			default:
				in.unsupported("constant of type " + t.String())
			}
		}
	} else {
		in.unsupported("constant of type " + t.String())
	}
	in.consts[c] = v
	return v
}

// callFn calls any function value.
func (in *Interp) callFn(caller *frame, f *Fn, args []Value, pos token.Pos) Value {
	if f == nil {
		in.panicT(caller, "invalid memory address or nil pointer dereference (nil func)", pos)
	}
	if f.native != nil {
		return f.native(caller, args)
	}
	if f.bi != nil {
		in.unsupported("builtin as value " + f.bi.Name())
	}
	return in.call(caller, f.fn, args, f.env, pos)
}

func (in *Interp) call(caller *frame, fn *ssa.Function, args []Value, env []Value, pos token.Pos) Value {
	if h := in.w.intrinsic(fn); h != nil {
		r, ok := h(in, caller, fn, args)
		if ok {
			return r
		}
	}
	if in.w.isStub(fn) {
		return in.zeroResult(fn.Signature)
	}
	in.w.buildFor(fn)
	if fn.Blocks == nil {
		in.unsupported("call of external function " + fn.String())
	}
	in.fnSeen[fn] = true
	fi := in.info(fn)
	fr := &frame{in: in, th: caller.th, fn: fn, info: fi, env: make([]Value, fi.n), caller: caller, depth: caller.depth + 1}
	if fr.depth > 400 {
		panic(pathEnd{"limit", "call depth in " + fn.String()})
	}
	for i, a := range args {
		fr.env[i] = a
	}
	for i, e := range env {
		fr.env[len(fn.Params)+i] = e
	}
	fr.block = fn.Blocks[0]
	if !fi.defers {
		fr.run()
		return fr.result
	}
	fr.runDeferring()
	return fr.result
}

// runDeferring executes a frame with deferred calls and recover support.
func (fr *frame) runDeferring() {
	done := func() (ok bool) {
		defer func() {
			if ok {
				return
			}
			r := recover()
			if tp, isT := r.(*targetPanic); isT {
				fr.panicVal = tp
				return
			}
			panic(r)
		}()
		fr.run()
		return true
	}()
	if done {
		return
	}
	// panicking: run the deferred calls
	fr.runDefers()
	if fr.panicVal != nil {
		panic(fr.panicVal)
	}
	// recovered
	if fr.fn.Recover != nil {
		fr.block = fr.fn.Recover
		fr.prev = nil
		fr.run()
	} else {
		fr.result = fr.in.zeroResult(fr.fn.Signature)
	}
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				if tp, ok := r.(*targetPanic); ok {
					fr.panicVal = tp
					return
				}
				panic(r)
			}()
			d()
		}()
	}
}

func (in *Interp) zeroResult(sig *types.Signature) Value {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return in.zero(r.At(0).Type())
	}
	return in.zero(r)
}

func (fr *frame) run() {
	in := fr.in
	for {
		blk := fr.block
		nphi := 0
		// phis are evaluated in parallel
		if _, ok := blk.Instrs[0].(*ssa.Phi); ok {
			var idx int
			for i, p := range blk.Preds {
				if p == fr.prev {
					idx = i
					break
				}
			}
			var tmp []Value
			for _, ins := range blk.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				tmp = append(tmp, fr.get(phi.Edges[idx]))
				nphi++
			}
			for i := 0; i < nphi; i++ {
				fr.set(blk.Instrs[i].(*ssa.Phi), tmp[i])
			}
		}
		var next *ssa.BasicBlock
		for _, ins := range blk.Instrs[nphi:] {
			in.steps++
			if in.steps > in.cfg.MaxSteps {
				panic(pathEnd{"limit", "step limit in " + fr.fn.String()})
			}
			switch x := ins.(type) {
			case *ssa.Jump:
				next = blk.Succs[0]
			case *ssa.If:
				if in.branch(fr.get(x.Cond).(*Term)) {
					next = blk.Succs[0]
				} else {
					next = blk.Succs[1]
				}
			case *ssa.Return:
				switch len(x.Results) {
				case 0:
				case 1:
					fr.result = fr.get(x.Results[0])
				default:
					tp := make(Tuple, len(x.Results))
					for i, r := range x.Results {
						tp[i] = fr.get(r)
					}
					fr.result = tp
				}
				return
			default:
				fr.exec(ins)
			}
		}
		if next == nil {
			panic("no successor in " + fr.fn.String())
		}
		fr.prev = blk
		fr.block = next
	}
}

func (fr *frame) exec(ins ssa.Instruction) {
	in := fr.in
	switch x := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		c := new(Value)
		*c = in.zero(x.Type().Underlying().(*types.Pointer).Elem())
		fr.set(x, c)
	case *ssa.Store:
		p, ok := fr.get(x.Addr).(*Value)
		if !ok || p == nil {
			in.panicT(fr, "invalid memory address or nil pointer dereference", x.Pos())
		}
		v := fr.get(x.Val)
		if in.raceOn {
			in.recordTree(fr, p, true, x.Pos())
		}
		in.storeVal(p, v)
	case *ssa.UnOp:
		fr.set(x, fr.unop(x))
	case *ssa.BinOp:
		fr.set(x, in.binop(fr, x.Op, x.X.Type(), fr.get(x.X), fr.get(x.Y), x.Y.Type(), x.Pos()))
	case *ssa.Call:
		fr.set(x, fr.doCall(&x.Call, x.Pos()))
	case *ssa.ChangeType:
		fr.set(x, fr.get(x.X))
	case *ssa.ChangeInterface:
		fr.set(x, fr.get(x.X))
	case *ssa.Convert:
		fr.set(x, in.convert(fr, x.X.Type(), x.Type(), fr.get(x.X)))
	case *ssa.MultiConvert:
		fr.set(x, in.convert(fr, x.X.Type(), x.Type(), fr.get(x.X)))
	case *ssa.MakeInterface:
		fr.set(x, Iface{t: x.X.Type(), v: copyVal(fr.get(x.X))})
	case *ssa.TypeAssert:
		fr.set(x, fr.typeAssert(x))
	case *ssa.Extract:
		fr.set(x, fr.get(x.Tuple).(Tuple)[x.Index])
	case *ssa.Field:
		fr.set(x, copyVal(fr.get(x.X).(Struct)[x.Field]))
	case *ssa.FieldAddr:
		p, ok := fr.get(x.X).(*Value)
		if !ok || p == nil {
			in.panicT(fr, "invalid memory address or nil pointer dereference", x.Pos())
		}
		s, ok := (*p).(Struct)
		if !ok {
			in.unsupported(fmt.Sprintf("field access on %T in %s", *p, fr.fn))
		}
		fr.set(x, &s[x.Field])
	case *ssa.Index:
		fr.set(x, fr.index(x))
	case *ssa.IndexAddr:
		fr.set(x, fr.indexAddr(x))
	case *ssa.Lookup:
		fr.set(x, fr.lookup(x))
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		fr.set(x, in.newMap(mt.Key(), mt.Elem()))
	case *ssa.MapUpdate:
		m, ok := fr.get(x.Map).(*Map)
		if !ok || m == nil {
			in.panicT(fr, "assignment to entry in nil map", x.Pos())
		}
		if in.raceOn {
			in.record(fr, m.id, true, x.Pos())
		}
		in.mapSet(m, fr.get(x.Key), copyVal(fr.get(x.Value)))
	case *ssa.MakeChan:
		n := in.concInt(fr.get(x.Size))
		if n < 0 {
			in.panicT(fr, "makechan: size out of range", x.Pos())
		}
		fr.set(x, &Chan{cap: n, et: x.Type().Underlying().(*types.Chan).Elem()})
	case *ssa.MakeSlice:
		l := in.concInt(fr.get(x.Len))
		c := in.concInt(fr.get(x.Cap))
		if l < 0 {
			in.panicT(fr, "makeslice: len out of range", x.Pos())
		}
		if c < l {
			in.panicT(fr, "makeslice: cap out of range", x.Pos())
		}
		if c > 1<<26 {
			in.unsupported("huge slice")
		}
		et := x.Type().Underlying().(*types.Slice).Elem()
		fr.set(x, Slice{arr: newArr(c, in.zero(et)), len: l, cap: c})
	case *ssa.MakeClosure:
		var env []Value
		for _, b := range x.Bindings {
			env = append(env, fr.get(b))
		}
		fr.set(x, &Fn{fn: x.Fn.(*ssa.Function), env: env})
	case *ssa.Range:
		fr.set(x, fr.rangeInit(x))
	case *ssa.Next:
		fr.set(x, fr.next(x))
	case *ssa.Slice:
		fr.set(x, fr.slice(x))
	case *ssa.SliceToArrayPointer:
		s := fr.get(x.X).(Slice)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if s.len < n {
			in.panicT(fr, "slice to array pointer: length out of range", x.Pos())
		}
		in.unsupported("slice to array pointer")
	case *ssa.Go:
		fn, args := fr.callee(&x.Call, x.Pos())
		in.spawn(fr, fn, args, x.Pos())
	case *ssa.Defer:
		fn, args := fr.callee(&x.Call, x.Pos())
		pos := x.Pos()
		if fn.bi != nil {
			bi := fn.bi
			fr.defers = append(fr.defers, func() { fr.builtin(bi, args, &x.Call, pos) })
		} else {
			fr.defers = append(fr.defers, func() { in.callFn(fr, fn, args, pos) })
		}
	case *ssa.RunDefers:
		fr.runDefers()
		if fr.panicVal != nil {
			p := fr.panicVal
			fr.panicVal = nil
			panic(p)
		}
	case *ssa.Panic:
		v := fr.get(x.X)
		msg := "panic"
		if i, ok := v.(Iface); ok {
			if s, ok := i.v.(string); ok {
				msg = s
			}
		}
		panic(&targetPanic{v: v, msg: msg, pos: in.w.prog.Fset.Position(x.Pos()).String()})
	case *ssa.Send:
		ch, _ := fr.get(x.Chan).(*Chan)
		in.chanSend(fr, ch, copyVal(fr.get(x.X)), x.Pos())
	case *ssa.Select:
		fr.set(x, fr.selectStmt(x))
	default:
		in.unsupported(fmt.Sprintf("instruction %T", ins))
	}
}

func (fr *frame) callee(c *ssa.CallCommon, pos token.Pos) (*Fn, []Value) {
	in := fr.in
	if c.IsInvoke() {
		recv, ok := fr.get(c.Value).(Iface)
		if !ok {
			in.unsupported("invoke on non-interface")
		}
		if recv.t == nil {
			in.panicT(fr, "invalid memory address or nil pointer dereference (nil interface)", pos)
		}
		m := in.w.lookupMethod(recv.t, c.Method)
		if m == nil {
			in.unsupported("method " + c.Method.Name() + " of " + recv.t.String())
		}
		args := []Value{copyVal(recv.v)}
		for _, a := range c.Args {
			args = append(args, copyVal(fr.get(a)))
		}
		return &Fn{fn: m}, args
	}
	args := make([]Value, len(c.Args))
	for i, a := range c.Args {
		args[i] = copyVal(fr.get(a))
	}
	f, _ := fr.get(c.Value).(*Fn)
	return f, args
}

func (fr *frame) doCall(c *ssa.CallCommon, pos token.Pos) Value {
	if b, ok := c.Value.(*ssa.Builtin); ok {
		args := make([]Value, len(c.Args))
		for i, a := range c.Args {
			args[i] = fr.get(a)
		}
		return fr.builtin(b, args, c, pos)
	}
	if sf := c.StaticCallee(); sf != nil && !c.IsInvoke() {
		if _, isFn := c.Value.(*ssa.Function); isFn {
			args := make([]Value, len(c.Args))
			for i, a := range c.Args {
				args[i] = copyVal(fr.get(a))
			}
			return fr.in.call(fr, sf, args, nil, pos)
		}
	}
	f, args := fr.callee(c, pos)
	return fr.in.callFn(fr, f, args, pos)
}

func (fr *frame) unop(x *ssa.UnOp) Value {
	in := fr.in
	v := fr.get(x.X)
	switch x.Op {
	case token.MUL:
		p, ok := v.(*Value)
		if !ok || p == nil {
			in.panicT(fr, "invalid memory address or nil pointer dereference", x.Pos())
		}
		if in.raceOn {
			in.recordTree(fr, p, false, x.Pos())
		}
		return copyVal(*p)
	case token.ARROW:
		ch, _ := v.(*Chan)
		r, ok := in.chanRecv(fr, ch, x.X.Type().Underlying().(*types.Chan).Elem())
		if x.CommaOk {
			return Tuple{r, in.tt.boolC(ok)}
		}
		return r
	case token.NOT:
		return in.tt.not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if t.sort == sF32 || t.sort == sF64 {
			return in.tt.funary(oFneg, t, t.sort, 0)
		}
		return in.tt.bin(oSub, in.tt.bv(0, t.sort), t)
	case token.XOR:
		return in.tt.bnot(v.(*Term))
	}
	in.unsupported("unary " + x.Op.String())
	return nil
}

func (in *Interp) binop(fr *frame, op token.Token, t types.Type, a, b Value, bt types.Type, pos token.Pos) Value {
	tt := in.tt
	switch op {
	case token.EQL:
		return in.eqMixed(t, bt, a, b)
	case token.NEQ:
		return tt.not(in.eqMixed(t, bt, a, b))
	}
	if isString(t) {
		switch op {
		case token.ADD:
			return in.strCat(a, b)
		case token.LSS:
			return in.strLess(a, b)
		case token.GTR:
			return in.strLess(b, a)
		case token.LEQ:
			return tt.not(in.strLess(b, a))
		case token.GEQ:
			return tt.not(in.strLess(a, b))
		}
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		in.unsupported(fmt.Sprintf("binary %s on %T,%T", op, a, b))
	}
	if _, ok := isFloat(t); ok {
		switch op {
		case token.ADD:
			return tt.fbin(oFadd, x, y)
		case token.SUB:
			return tt.fbin(oFsub, x, y)
		case token.MUL:
			return tt.fbin(oFmul, x, y)
		case token.QUO:
			return tt.fbin(oFdiv, x, y)
		case token.LSS:
			return tt.fcmp(oFlt, x, y)
		case token.LEQ:
			return tt.fcmp(oFle, x, y)
		case token.GTR:
			return tt.fcmp(oFlt, y, x)
		case token.GEQ:
			return tt.fcmp(oFle, y, x)
		}
		in.unsupported("float op " + op.String())
	}
	if x.sort == sBool {
		switch op {
		case token.AND, token.LAND:
			return tt.and(x, y)
		case token.OR, token.LOR:
			return tt.or(x, y)
		}
		in.unsupported("bool op " + op.String())
	}
	bas, _ := t.Underlying().(*types.Basic)
	if bas == nil {
		in.unsupported("binary op on " + t.String())
	}
	w, signed, isInt := intSort(bas)
	if !isInt {
		in.unsupported("binary op on " + t.String())
	}
	switch op {
	case token.ADD:
		return tt.bin(oAdd, x, y)
	case token.SUB:
		return tt.bin(oSub, x, y)
	case token.MUL:
		return tt.bin(oMul, x, y)
	case token.QUO, token.REM:
		if in.branch(tt.eq(y, tt.bv(0, w))) {
			in.panicT(fr, "integer divide by zero", pos)
		}
		switch {
		case op == token.QUO && signed:
			return tt.bin(oSdiv, x, y)
		case op == token.QUO:
			return tt.bin(oUdiv, x, y)
		case signed:
			return tt.bin(oSrem, x, y)
		default:
			return tt.bin(oUrem, x, y)
		}
	case token.AND:
		return tt.bin(oBand, x, y)
	case token.OR:
		return tt.bin(oBor, x, y)
	case token.XOR:
		return tt.bin(oBxor, x, y)
	case token.AND_NOT:
		return tt.bin(oBand, x, tt.bnot(y))
	case token.SHL, token.SHR:
		bb, _ := bt.Underlying().(*types.Basic)
		_, ysigned, _ := intSort(bb)
		if ysigned {
			if in.branch(tt.cmp(oSlt, y, tt.bv(0, y.sort))) {
				in.panicT(fr, "negative shift amount", pos)
			}
		}
		// saturate the shift count to w
		var cnt *Term
		if y.sort > w {
			big := tt.cmp(oUle, tt.bv(uint64(w), y.sort), y)
			cnt = tt.ite(big, tt.bv(uint64(w), w), tt.extract(y, int(w)-1, 0))
		} else {
			cnt = tt.zext(y, w)
		}
		switch {
		case op == token.SHL:
			return tt.bin(oShl, x, cnt)
		case signed:
			return tt.bin(oAshr, x, cnt)
		default:
			return tt.bin(oLshr, x, cnt)
		}
	case token.LSS:
		if signed {
			return tt.cmp(oSlt, x, y)
		}
		return tt.cmp(oUlt, x, y)
	case token.LEQ:
		if signed {
			return tt.cmp(oSle, x, y)
		}
		return tt.cmp(oUle, x, y)
	case token.GTR:
		if signed {
			return tt.cmp(oSlt, y, x)
		}
		return tt.cmp(oUlt, y, x)
	case token.GEQ:
		if signed {
			return tt.cmp(oSle, y, x)
		}
		return tt.cmp(oUle, y, x)
	}
	in.unsupported("binary " + op.String())
	return nil
}

func (in *Interp) eqMixed(at, bt types.Type, a, b Value) *Term {
	_, ai := at.Underlying().(*types.Interface)
	_, bi := bt.Underlying().(*types.Interface)
	if ai && !bi {
		b = Iface{t: bt, v: b}
	} else if bi && !ai {
		a = Iface{t: at, v: a}
	}
	return in.equals(at, a, b)
}

func (in *Interp) convert(fr *frame, from, to types.Type, v Value) Value {
	tt := in.tt
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	if tb != nil && tb.Info()&types.IsString != 0 {
		switch {
		case fb != nil && fb.Info()&types.IsString != 0:
			return v
		case fb != nil: // rune -> string
			r := in.concretize(v.(*Term))
			return string(rune(sx(r, v.(*Term).sort)))
		}
		if st, ok := fu.(*types.Slice); ok {
			s := v.(Slice)
			eb := st.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				bs := make([]*Term, s.len)
				for i := range bs {
					bs[i] = (*s.at(i)).(*Term)
				}
				return in.mkStr(bs)
			}
			// []rune
			var out []*Term
			for i := 0; i < s.len; i++ {
				r := (*s.at(i)).(*Term)
				if !r.isC() && in.branch(tt.cmp(oUlt, r, tt.bv(0x80, 32))) {
					out = append(out, tt.extract(r, 7, 0))
					continue
				}
				c := in.concretize(r)
				for _, b := range []byte(string(rune(int32(c)))) {
					out = append(out, tt.bv(uint64(b), 8))
				}
			}
			return in.mkStr(out)
		}
	}
	if st, ok := tu.(*types.Slice); ok && fb != nil && fb.Info()&types.IsString != 0 {
		eb := st.Elem().Underlying().(*types.Basic)
		if eb.Kind() == types.Uint8 {
			bs := in.strBytes(v)
			vals := make([]Value, len(bs))
			for i, b := range bs {
				vals[i] = b
			}
			return Slice{arr: arrOf(vals), len: len(vals), cap: len(vals)}
		}
		var vals []Value
		it := &strIter{s: v}
		for {
			ok, _, r := in.strNext(fr, it)
			if !ok {
				break
			}
			vals = append(vals, r)
		}
		return Slice{arr: arrOf(vals), len: len(vals), cap: len(vals)}
	}
	if fb != nil && tb != nil {
		t, ok := v.(*Term)
		if !ok {
			if tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer {
				return v
			}
			in.unsupported("conversion " + from.String() + " -> " + to.String())
		}
		fw, fsigned, fint := intSort(fb)
		tw, tsigned, tint := intSort(tb)
		_ = fw
		if fint && tint {
			return tt.conv(t, tw, fsigned)
		}
		if fs, ok := isFloat(to); ok {
			if fint {
				if fsigned {
					return tt.funary(oStoF, t, fs, 0)
				}
				return tt.funary(oUtoF, t, fs, 0)
			}
			if t.sort == fs {
				return t
			}
			return tt.funary(oFcast, t, fs, 0)
		}
		if _, ok := isFloat(from); ok && tint {
			if t.isC() {
				f := t.fval()
				if tsigned {
					return tt.bv(uint64(int64(f)), tw)
				}
				if f < 0 {
					return tt.bv(uint64(int64(f)), tw)
				}
				return tt.bv(uint64(f), tw)
			}
			if tsigned {
				return tt.extract(tt.funary(oFtoS, t, 64, 0), int(tw)-1, 0)
			}
			return tt.extract(tt.funary(oFtoU, t, 64, 0), int(tw)-1, 0)
		}
		if fb.Kind() == tb.Kind() {
			return v
		}
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	if tb != nil && tb.Kind() == types.UnsafePointer {
		return v
	}
	if types.Identical(fu, tu) {
		return v
	}
	in.unsupported("conversion " + from.String() + " -> " + to.String())
	return nil
}

func (fr *frame) typeAssert(x *ssa.TypeAssert) Value {
	in := fr.in
	i, ok := fr.get(x.X).(Iface)
	if !ok {
		in.unsupported("type assertion on non-interface")
	}
	good := false
	if i.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			good = types.Implements(i.t, it)
		} else {
			good = types.Identical(i.t, x.AssertedType)
		}
	}
	var v Value
	if good {
		if _, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			v = i
		} else {
			v = copyVal(i.v)
		}
	}
	if x.CommaOk {
		if !good {
			v = in.zero(x.AssertedType)
		}
		return Tuple{v, in.tt.boolC(good)}
	}
	if !good {
		in.panicT(fr, "interface conversion", x.Pos())
	}
	return v
}

// tableRead builds an ite chain over n scalar elements; the most frequent value is the default.
func (in *Interp) tableRead(n int, elem func(int) *Term, idx *Term) *Term {
	cnt := map[*Term]int{}
	var def *Term
	for i := 0; i < n; i++ {
		e := elem(i)
		cnt[e]++
		if def == nil || cnt[e] > cnt[def] {
			def = e
		}
	}
	if idx.cl > 0 {
		// the index is one of a few constants
		return in.tt.canon(in.tt.mapLeaves(idx, map[*Term]*Term{}, func(l *Term) *Term {
			if l.k < uint64(n) {
				return elem(int(l.k))
			}
			return def
		}))
	}
	r := def
	for i := n - 1; i >= 0; i-- {
		e := elem(i)
		if e == def {
			continue
		}
		r = in.tt.ite(in.tt.eq(idx, in.tt.bv(uint64(i), idx.sort)), e, r)
	}
	return in.tt.canon(r)
}

// inBounds checks 0 <= idx < n and panics (in the target) on the failing side.
func (fr *frame) bounds(idx *Term, n *Term, signed bool, pos token.Pos) {
	in := fr.in
	w := in.tt.conv(idx, 64, signed)
	if !in.branch(in.tt.cmp(oUlt, w, n)) {
		in.panicT(fr, "index out of range", pos)
	}
}

func idxSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return true
	}
	_, s, _ := intSort(b)
	return s
}

func (fr *frame) index(x *ssa.Index) Value {
	in := fr.in
	idx := fr.get(x.Index).(*Term)
	v := fr.get(x.X)
	switch c := v.(type) {
	case *Arr:
		fr.bounds(idx, in.tt.bv(uint64(c.n), 64), idxSigned(x.Index.Type()), x.Pos())
		if idx.isC() {
			return copyVal(*c.at(int(idx.k)))
		}
		if _, ok := (*c.at(0)).(*Term); ok {
			return in.tableRead(c.n, func(i int) *Term { return (*c.at(i)).(*Term) }, idx)
		}
		return copyVal(*c.at(int(in.concretize(idx))))
	}
	return fr.strIndex(v, idx, idxSigned(x.Index.Type()), x.Pos())
}

func (fr *frame) strIndex(v Value, idx *Term, signed bool, pos token.Pos) Value {
	in := fr.in
	fr.bounds(idx, in.strLen(v), signed, pos)
	if at, ok := v.(*Atom); ok {
		if !idx.isC() {
			in.unsupported("symbolic index into opaque word")
		}
		return in.atomByte(at, int(idx.k))
	}
	bs := in.strBytes(v)
	if idx.isC() {
		return bs[idx.k]
	}
	return in.tableRead(len(bs), func(i int) *Term { return bs[i] }, idx)
}

// atomByte: the i-th character of an opaque word is an unconstrained printable character.
func (in *Interp) atomByte(a *Atom, i int) *Term {
	if a.code.isC() {
		if s, ok := in.codeStr[a.code.k]; ok {
			return in.tt.bv(uint64(s[i]), 8)
		}
	}
	v := in.tt.variable(fmt.Sprintf("ch!%x!%d", a.code.h, i), 8)
	in.assumeRaw(in.tt.and(in.tt.cmp(oUlt, in.tt.bv(0x20, 8), v), in.tt.cmp(oUlt, v, in.tt.bv(0x7f, 8))))
	return v
}

func (fr *frame) indexAddr(x *ssa.IndexAddr) Value {
	in := fr.in
	idx := fr.get(x.Index).(*Term)
	sg := idxSigned(x.Index.Type())
	switch c := fr.get(x.X).(type) {
	case Slice:
		fr.bounds(idx, in.tt.bv(uint64(c.len), 64), sg, x.Pos())
		return c.at(int(in.concretize(idx)))
	case *Value:
		if c == nil {
			in.panicT(fr, "invalid memory address or nil pointer dereference", x.Pos())
		}
		a := (*c).(*Arr)
		fr.bounds(idx, in.tt.bv(uint64(a.n), 64), sg, x.Pos())
		if !idx.isC() {
			// read-only tables: return a temporary cell holding the selected element
			if _, ok := (*a.at(0)).(*Term); ok && onlyLoaded(x) {
				p := new(Value)
				*p = in.tableRead(a.n, func(i int) *Term { return (*a.at(i)).(*Term) }, idx)
				return p
			}
		}
		return a.at(int(in.concretize(idx)))
	}
	in.unsupported("index address")
	return nil
}

// onlyLoaded reports whether the address is only used to load from.
func onlyLoaded(x *ssa.IndexAddr) bool {
	for _, r := range *x.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok || u.Op != token.MUL {
			return false
		}
	}
	return true
}

func (fr *frame) slice(x *ssa.Slice) Value {
	in := fr.in
	v := fr.get(x.X)
	get := func(e ssa.Value, def *Term) *Term {
		if e == nil {
			return def
		}
		t := fr.get(e).(*Term)
		return in.tt.conv(t, 64, idxSigned(e.Type()))
	}
	zero := in.tt.bv(0, 64)
	switch s := v.(type) {
	case string, *SymStr, *Atom:
		n := in.strLen(s)
		lo, hi := get(x.Low, zero), get(x.High, n)
		ok := in.tt.and(in.tt.cmp(oUle, lo, hi), in.tt.cmp(oUle, hi, n))
		if !in.branch(ok) {
			in.panicT(fr, "slice bounds out of range", x.Pos())
		}
		if at, isA := s.(*Atom); isA {
			if lo == zero && hi == n {
				return s
			}
			return in.derivedAtom(fmt.Sprintf("sub(%x,%x,%x)", at.code.h, lo.h, hi.h))
		}
		l, h := int(in.concretize(lo)), int(in.concretize(hi))
		if str, ok := s.(string); ok {
			return str[l:h]
		}
		return in.mkStr(in.strBytes(s)[l:h])
	case Slice:
		capT := in.tt.bv(uint64(s.cap), 64)
		lo, hi := get(x.Low, zero), get(x.High, in.tt.bv(uint64(s.len), 64))
		mx := get(x.Max, capT)
		ok := in.tt.and(in.tt.and(in.tt.cmp(oUle, lo, hi), in.tt.cmp(oUle, hi, mx)), in.tt.cmp(oUle, mx, capT))
		if !in.branch(ok) {
			in.panicT(fr, "slice bounds out of range", x.Pos())
		}
		l, h, m := int(in.concretize(lo)), int(in.concretize(hi)), int(in.concretize(mx))
		if s.arr == nil {
			return Slice{}
		}
		return Slice{arr: s.arr, off: s.off + l, len: h - l, cap: m - l}
	case *Value:
		if s == nil {
			in.panicT(fr, "invalid memory address or nil pointer dereference", x.Pos())
		}
		a := (*s).(*Arr)
		capT := in.tt.bv(uint64(a.n), 64)
		lo, hi := get(x.Low, zero), get(x.High, capT)
		mx := get(x.Max, capT)
		ok := in.tt.and(in.tt.and(in.tt.cmp(oUle, lo, hi), in.tt.cmp(oUle, hi, mx)), in.tt.cmp(oUle, mx, capT))
		if !in.branch(ok) {
			in.panicT(fr, "slice bounds out of range", x.Pos())
		}
		l, h, m := int(in.concretize(lo)), int(in.concretize(hi)), int(in.concretize(mx))
		return Slice{arr: a, off: l, len: h - l, cap: m - l}
	}
	in.unsupported("slice expression")
	return nil
}

// ---- maps ----

func (in *Interp) newMap(kt, vt types.Type) *Map {
	return &Map{kt: kt, vt: vt, idx: map[any]int{}, base: in.inBase, id: new(Value)}
}

func (in *Interp) mapTouch(m *Map) {
	if in.inBase || !m.base || m.saved {
		return
	}
	m.saved = true
	ents := make([]*mapEnt, len(m.ents))
	for i, e := range m.ents {
		c := *e
		ents[i] = &c
	}
	idx := make(map[any]int, len(m.idx))
	for k, v := range m.idx {
		idx[k] = v
	}
	nsym, n := m.nsym, m.n
	in.mapUndo = append(in.mapUndo, func() {
		m.ents, m.idx, m.nsym, m.n, m.saved = ents, idx, nsym, n, false
	})
}

// mapFind returns the entry holding k, forking over possible aliases.
func (in *Interp) mapFind(m *Map, k Value) *mapEnt {
	ck, conc := canonKey(k)
	if conc {
		if i, ok := m.idx[ck]; ok {
			return m.ents[i]
		}
		if m.nsym == 0 && !maybeAtomClash(k) {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead || (conc && !e.sym && !(maybeAtomClash(k) || maybeAtomClash(e.k))) {
			continue
		}
		if in.branch(in.equals(m.kt, e.k, k)) {
			return e
		}
	}
	return nil
}

// maybeAtomClash: a concrete-coded atom can still stand for an interned constant string.
func maybeAtomClash(k Value) bool {
	_, ok := k.(*Atom)
	return ok
}

func (in *Interp) mapSet(m *Map, k, v Value) {
	in.mapTouch(m)
	if f, ok := k.(*Term); ok && (f.sort == sF64 || f.sort == sF32) {
		in.unsupported("float map key")
	}
	if e := in.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	ck, conc := canonKey(k)
	m.ents = append(m.ents, &mapEnt{k: copyVal(k), v: v, sym: !conc})
	m.n++
	if conc {
		m.idx[ck] = len(m.ents) - 1
	} else {
		m.nsym++
	}
}

func (in *Interp) mapDelete(m *Map, k Value) {
	if m == nil {
		return
	}
	in.mapTouch(m)
	e := in.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if ck, conc := canonKey(e.k); conc {
		delete(m.idx, ck)
	} else {
		m.nsym--
	}
	// compact
	var ne []*mapEnt
	m.idx = map[any]int{}
	for _, x := range m.ents {
		if !x.dead {
			if ck, conc := canonKey(x.k); conc {
				m.idx[ck] = len(ne)
			}
			ne = append(ne, x)
		}
	}
	m.ents = ne
}

// mapGet returns value and presence term.
func (in *Interp) mapGet(m *Map, k Value, vt types.Type) (Value, *Term) {
	if m == nil {
		return in.zero(vt), in.tt.tFalse
	}
	ck, conc := canonKey(k)
	if conc {
		if i, ok := m.idx[ck]; ok {
			return copyVal(m.ents[i].v), in.tt.tTrue
		}
		if m.nsym == 0 && !maybeAtomClash(k) {
			return in.zero(vt), in.tt.tFalse
		}
	}
	if len(m.ents) == 0 {
		return in.zero(vt), in.tt.tFalse
	}
	scalar := true
	for _, e := range m.ents {
		if _, ok := e.v.(*Term); !ok {
			scalar = false
			break
		}
	}
	if ss, ok := k.(*SymStr); ok && m.nsym == 0 {
		// trie over the byte string
		var cands []*mapEnt
		for _, e := range m.ents {
			if s, ok := e.k.(string); ok && len(s) == len(ss.b) {
				cands = append(cands, e)
			}
		}
		found := in.trie(ss.b, 0, cands, func(e *mapEnt) *Term { return in.tt.tTrue }, in.tt.tFalse)
		if scalar {
			z := in.zero(vt).(*Term)
			return in.tt.canon(in.trie(ss.b, 0, cands, func(e *mapEnt) *Term { return e.v.(*Term) }, z)), in.tt.canon(found)
		}
		// struct{} valued sets and the like: all values equal
		if !in.branch(found) {
			return in.zero(vt), in.tt.tFalse
		}
		for _, e := range cands {
			if in.branch(in.strEq(e.k, k)) {
				return copyVal(e.v), in.tt.tTrue
			}
		}
		return in.zero(vt), in.tt.tFalse
	}
	if scalar {
		z := in.zero(vt).(*Term)
		r := z
		found := in.tt.tFalse
		for i := len(m.ents) - 1; i >= 0; i-- {
			e := m.ents[i]
			if conc && !e.sym && !(maybeAtomClash(k) || maybeAtomClash(e.k)) {
				continue
			}
			c := in.equals(m.kt, e.k, k)
			r = in.tt.ite(c, e.v.(*Term), r)
			found = in.tt.or(c, found)
		}
		return r, found
	}
	// all values identical (sets): no need to know which entry
	if allEmptyStruct(m) {
		found := in.tt.tFalse
		for _, e := range m.ents {
			found = in.tt.or(in.equals(m.kt, e.k, k), found)
		}
		return in.zero(vt), found
	}
	e := in.mapFind(m, k)
	if e == nil {
		return in.zero(vt), in.tt.tFalse
	}
	return copyVal(e.v), in.tt.tTrue
}

func allEmptyStruct(m *Map) bool {
	st, ok := m.vt.Underlying().(*types.Struct)
	return ok && st.NumFields() == 0
}

func (in *Interp) trie(bs []*Term, pos int, ents []*mapEnt, leaf func(*mapEnt) *Term, def *Term) *Term {
	if len(ents) == 0 {
		return def
	}
	if pos == len(bs) {
		return leaf(ents[len(ents)-1])
	}
	var order []byte
	groups := map[byte][]*mapEnt{}
	for _, e := range ents {
		c := e.k.(string)[pos]
		if _, ok := groups[c]; !ok {
			order = append(order, c)
		}
		groups[c] = append(groups[c], e)
	}
	r := def
	for i := len(order) - 1; i >= 0; i-- {
		c := order[i]
		cond := in.tt.eq(bs[pos], in.tt.bv(uint64(c), 8))
		if cond.isC() && cond.k == 0 {
			continue
		}
		r = in.tt.ite(cond, in.trie(bs, pos+1, groups[c], leaf, def), r)
	}
	return r
}

func (fr *frame) lookup(x *ssa.Lookup) Value {
	in := fr.in
	c := fr.get(x.X)
	if mt, ok := x.X.Type().Underlying().(*types.Map); ok {
		m, _ := c.(*Map)
		if in.raceOn && m != nil {
			in.record(fr, m.id, false, x.Pos())
		}
		v, found := in.mapGet(m, fr.get(x.Index), mt.Elem())
		if x.CommaOk {
			if t, ok := v.(*Term); ok && !found.isC() && t.sort != sBool && !t.isC() {
				// decide the presence here: the value of a present key is simpler
				if in.branch(found) {
					return Tuple{in.tt.canonCare(t, in.tt.canon(found)), in.tt.tTrue}
				}
				return Tuple{in.zero(mt.Elem()), in.tt.tFalse}
			}
			return Tuple{v, found}
		}
		return v
	}
	return fr.strIndex(c, fr.get(x.Index).(*Term), idxSigned(x.Index.Type()), x.Pos())
}

func (fr *frame) rangeInit(x *ssa.Range) Value {
	in := fr.in
	v := fr.get(x.X)
	switch c := v.(type) {
	case *Map:
		it := &mapIter{m: c}
		if c != nil {
			if in.raceOn {
				in.record(fr, c.id, false, x.Pos())
			}
			it.keys = append(it.keys, c.ents...)
		}
		return it
	case string, *SymStr, *Atom:
		return &strIter{s: v}
	}
	in.unsupported(fmt.Sprintf("range over %T", v))
	return nil
}

func (fr *frame) next(x *ssa.Next) Value {
	in := fr.in
	switch it := fr.get(x.Iter).(type) {
	case *mapIter:
		for it.i < len(it.keys) {
			if in.mapOrder {
				// any remaining entry may come next
				k := in.choose(len(it.keys) - it.i)
				it.keys[it.i], it.keys[it.i+k] = it.keys[it.i+k], it.keys[it.i]
			}
			e := it.keys[it.i]
			it.i++
			if e.dead {
				continue
			}
			return Tuple{in.tt.tTrue, copyVal(e.k), copyVal(e.v)}
		}
		tp := x.Type().(*types.Tuple)
		z := func(i int) Value {
			t := tp.At(i).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return nil
			}
			return in.zero(t)
		}
		return Tuple{in.tt.tFalse, z(1), z(2)}
	case *strIter:
		ok, i, r := in.strNext(fr, it)
		if !ok {
			return Tuple{in.tt.tFalse, in.tt.bv(0, 64), in.tt.bv(0, 32)}
		}
		return Tuple{in.tt.tTrue, in.tt.bv(uint64(i), 64), r}
	}
	in.unsupported("next")
	return nil
}

func (in *Interp) strNext(fr *frame, it *strIter) (bool, int, *Term) {
	if _, ok := it.s.(*Atom); ok {
		in.unsupported("range over opaque word")
	}
	bs := in.strBytes(it.s)
	if it.i >= len(bs) {
		return false, 0, nil
	}
	i := it.i
	b := bs[i]
	if in.branch(in.tt.cmp(oUlt, b, in.tt.bv(0x80, 8))) {
		it.i++
		return true, i, in.tt.zext(b, 32)
	}
	fn := in.w.findFunc("unicode/utf8", "DecodeRuneInString")
	r := in.call(fr, fn, []Value{in.mkStr(bs[i:])}, nil, token.NoPos).(Tuple)
	it.i += in.concInt(r[1])
	return true, i, r[0].(*Term)
}

// ---- builtins ----

func (fr *frame) builtin(b *ssa.Builtin, args []Value, c *ssa.CallCommon, pos token.Pos) Value {
	in := fr.in
	tt := in.tt
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case string, *SymStr, *Atom:
			return in.strLen(v)
		case Slice:
			return tt.bv(uint64(v.len), 64)
		case *Map:
			if v == nil {
				return tt.bv(0, 64)
			}
			if in.raceOn {
				in.record(fr, v.id, false, pos)
			}
			return tt.bv(uint64(v.n), 64)
		case *Chan:
			if v == nil {
				return tt.bv(0, 64)
			}
			return tt.bv(uint64(len(v.buf)), 64)
		case *Arr:
			return tt.bv(uint64(v.n), 64)
		case *Value:
			return tt.bv(uint64((*v).(*Arr).n), 64)
		}
	case "cap":
		switch v := args[0].(type) {
		case Slice:
			return tt.bv(uint64(v.cap), 64)
		case *Chan:
			return tt.bv(uint64(v.cap), 64)
		case *Arr:
			return tt.bv(uint64(v.n), 64)
		}
	case "append":
		s, _ := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		var add []Value
		switch v := args[1].(type) {
		case Slice:
			for i := 0; i < v.len; i++ {
				if in.raceOn {
					in.recordTree(fr, v.at(i), false, pos)
				}
				add = append(add, *v.at(i))
			}
		case string, *SymStr, *Atom:
			for _, t := range in.strBytes(v) {
				add = append(add, t)
			}
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		return in.appendVals(fr, s, add, et, pos)
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch v := args[1].(type) {
		case Slice:
			for i := 0; i < v.len && i < d.len; i++ {
				src = append(src, copyVal(*v.at(i)))
			}
		default:
			for _, t := range in.strBytes(v) {
				src = append(src, t)
			}
		}
		n := min(d.len, len(src))
		for i := 0; i < n; i++ {
			if in.raceOn {
				in.recordTree(fr, d.at(i), true, pos)
			}
			in.storeVal(d.at(i), src[i])
		}
		return tt.bv(uint64(n), 64)
	case "close":
		in.chanClose(fr, args[0].(*Chan), pos)
		return nil
	case "delete":
		m, _ := args[0].(*Map)
		if in.raceOn && m != nil {
			in.record(fr, m.id, true, pos)
		}
		in.mapDelete(m, args[1])
		return nil
	case "clear":
		switch v := args[0].(type) {
		case *Map:
			if v != nil {
				in.mapTouch(v)
				v.ents, v.idx, v.n, v.nsym = nil, map[any]int{}, 0, 0
			}
		case Slice:
			for i := 0; i < v.len; i++ {
				in.storeVal(v.at(i), v.arr.zero)
			}
		}
		return nil
	case "panic":
		panic(&targetPanic{v: args[0], msg: "panic", pos: in.w.prog.Fset.Position(pos).String()})
	case "recover":
		// recover() is called by a deferred function: its caller frame is panicking
		f := fr.caller
		if f != nil && f.panicVal != nil {
			v := f.panicVal.v
			f.panicVal = nil
			f.recovered = true
			if i, ok := v.(Iface); ok {
				return i
			}
			return Iface{t: types.Typ[types.String], v: "panic"}
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			cnd := in.binop(fr, op, c.Args[0].Type(), a, r, c.Args[0].Type(), pos).(*Term)
			x, ok1 := a.(*Term)
			y, ok2 := r.(*Term)
			if ok1 && ok2 && x.sort < 100 {
				r = tt.ite(cnd, x, y)
			} else if in.branch(cnd) {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.panicT(fr, "invalid memory address or nil pointer dereference", pos)
		}
		return args[0]
	case "SliceData":
		return DataPtr{args[0].(Slice)}
	case "StringData":
		bs := in.strBytes(args[0])
		vals := make([]Value, len(bs))
		for i, x := range bs {
			vals[i] = x
		}
		return DataPtr{Slice{arr: arrOf(vals), len: len(vals), cap: len(vals)}}
	case "String":
		n := in.concInt(args[1])
		if n == 0 {
			return ""
		}
		dp, ok := args[0].(DataPtr)
		if !ok {
			in.unsupported("unsafe.String")
		}
		bs := make([]*Term, n)
		for i := range bs {
			bs[i] = (*dp.s.at(i)).(*Term)
		}
		return in.mkStr(bs)
	case "Slice":
		n := in.concInt(args[1])
		if n == 0 {
			return Slice{}
		}
		dp, ok := args[0].(DataPtr)
		if !ok {
			in.unsupported("unsafe.Slice")
		}
		return Slice{arr: dp.s.arr, off: dp.s.off, len: n, cap: n}
	}
	in.unsupported("builtin " + b.Name())
	return nil
}

func (in *Interp) appendVals(fr *frame, s Slice, add []Value, et types.Type, pos token.Pos) Slice {
	if len(add) == 0 {
		return s
	}
	need := s.len + len(add)
	if need <= s.cap {
		for i, v := range add {
			p := s.arr.at(s.off + s.len + i)
			if in.raceOn {
				in.recordTree(fr, p, true, pos)
			}
			in.storeVal(p, v)
		}
		return Slice{arr: s.arr, off: s.off, len: need, cap: s.cap}
	}
	nc := s.cap * 2
	if nc < need {
		nc = need
	}
	if nc < 4 && need < 4 {
		nc = need
	}
	var z Value
	if s.arr != nil && s.arr.zero != nil {
		z = s.arr.zero
	} else {
		z = in.zero(et)
	}
	na := newArr(nc, z)
	for i := 0; i < s.len; i++ {
		*na.at(i) = copyVal(*s.at(i))
	}
	for i, v := range add {
		*na.at(s.len + i) = copyVal(v)
	}
	return Slice{arr: na, len: need, cap: nc}
}

func goStringOf(v Value) (string, bool) {
	s, ok := v.(string)
	return s, ok
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	s = strings.ReplaceAll(s, "github.com/asap2Go/calibrationReader", "cr")
	return s
}

var _ = math.Inf
