package main

import (
	"encoding/hex"
	"fmt"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ReplayInput is one harness input with its concrete value.
type ReplayInput struct {
	Name string `json:"name"`
	Num  string `json:"num,omitempty"` // integers: decimal of the bits
	Hex  string `json:"hex,omitempty"` // strings: hex of the bytes
}

type Violation struct {
	Run    *RunCfg
	Kind   string // assert, panic, deadlock, race, hang, native
	Msg    string
	Inputs []ReplayInput
	Dec    []Decision
	Sched  bool // depends on the schedule
	// after replay
	Confirmed bool
	Detail    string
	File      string
}

func (in *Interp) inputName(n string) string {
	c := in.nameCnt[n]
	in.nameCnt[n] = c + 1
	if c == 0 {
		return n
	}
	return fmt.Sprintf("%s#%d", n, c)
}

func argName(in *Interp, v Value) string {
	s, ok := v.(string)
	if !ok {
		in.unsupported("harness input name must be constant")
	}
	return in.inputName(s)
}

func symInt(w Sort) intrinsic {
	return func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
		n := argName(in, args[0])
		t := in.tt.variable(n, w)
		in.inputs = append(in.inputs, input{Name: n, Kind: "u", t: t})
		return ok(t)
	}
}

func identText(name string) string {
	var b strings.Builder
	b.WriteString("Zq_")
	for _, c := range name {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	b.WriteString("_wX")
	return b.String()
}

func (in *Interp) cond(v Value) *Term { return v.(*Term) }

func harnessIntrinsics() map[string]intrinsic {
	return map[string]intrinsic{
		"verifU8":  symInt(8),
		"verifU16": symInt(16),
		"verifU32": symInt(32),
		"verifU64": symInt(64),
		"verifInt": symInt(64),
		"verifBool": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			n := argName(in, args[0])
			t := in.tt.variable(n, sBool)
			in.inputs = append(in.inputs, input{Name: n, Kind: "u", t: t})
			return ok(t)
		},
		"verifF64": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			n := argName(in, args[0])
			t := in.tt.variable(n, 64)
			in.inputs = append(in.inputs, input{Name: n, Kind: "u", t: t})
			return ok(in.tt.fromBits(t))
		},
		"verifBytes": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			n := argName(in, args[0])
			k := in.concInt(args[1])
			bs := make([]*Term, k)
			for i := range bs {
				bs[i] = in.tt.variable(fmt.Sprintf("%s[%d]", n, i), 8)
			}
			in.inputs = append(in.inputs, input{Name: n, Kind: "b", bs: bs})
			return ok(in.mkStr(bs))
		},
		// a fresh word different from every keyword and every other word
		"verifIdent": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			n := argName(in, args[0])
			a := &Atom{code: in.freshCode(), ident: true, name: n}
			in.inputs = append(in.inputs, input{Name: n, Kind: "id", at: a})
			return ok(a)
		},
		// an arbitrary word: any keyword, any decimal integer, or any other word
		"verifTok": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			n := argName(in, args[0])
			a := &Atom{code: in.tt.variable(n+".code", 32), name: n,
				isNum: in.tt.variable(n+".isnum", sBool), val: in.tt.variable(n+".val", 64)}
			// numbers are not keywords
			in.assumeRaw(in.tt.or(in.tt.not(a.isNum), in.tt.eq(a.code, in.tt.bin(oBor, in.tt.bv(0x80000000, 32), in.tt.extract(a.val, 30, 0).zx(in)))))
			in.assumeRaw(in.tt.or(a.isNum, in.tt.cmp(oUlt, a.code, in.tt.bv(0x80000000, 32))))
			in.inputs = append(in.inputs, input{Name: n, Kind: "tok", at: a})
			return ok(a)
		},
		// an arbitrary word that is not a decimal integer
		"verifWord": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			n := argName(in, args[0])
			a := &Atom{code: in.tt.variable(n+".code", 32), name: n}
			in.assumeRaw(in.tt.cmp(oUlt, a.code, in.tt.bv(0x80000000, 32)))
			in.inputs = append(in.inputs, input{Name: n, Kind: "tok", at: a})
			return ok(a)
		},
		// the decimal text of a (symbolic) signed integer
		"verifNumTok": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			n := argName(in, args[0])
			v := args[1].(*Term)
			a := &Atom{code: in.freshCode(), name: n, isNum: in.tt.tTrue, val: v}
			if v.isC() {
				return ok(strconv.FormatInt(int64(v.k), 10))
			}
			in.inputs = append(in.inputs, input{Name: n, Kind: "id", at: a})
			return ok(a)
		},
		// the decimal text of a (symbolic) float, always with a decimal exponent
		"verifFloatTok": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			n := argName(in, args[0])
			v := args[1].(*Term)
			if v.isC() {
				return ok(strconv.FormatFloat(v.fval(), 'e', -1, 64))
			}
			a := &Atom{code: in.freshCode(), name: n, isFlt: true, isNum: in.tt.tFalse, fval: v}
			in.inputs = append(in.inputs, input{Name: n, Kind: "id", at: a})
			return ok(a)
		},
		"verifAssume": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			in.assume(args[0].(*Term))
			return nil, true
		},
		"verifAssert": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			msg, _ := args[1].(string)
			in.assertion(args[0].(*Term), msg)
			return nil, true
		},
		"verifReach": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			s, _ := args[0].(string)
			in.covered[s] = true
			return nil, true
		},
		"verifParam": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			s, _ := args[0].(string)
			v, okk := in.cfg.Params[s]
			if !okk {
				in.unsupported("no parameter " + s)
			}
			return ok(in.int2(v))
		},
		"verifChoose": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			n := argName(in, args[0])
			k := in.choose(in.concInt(args[1]))
			t := in.tt.bv(uint64(k), 64)
			in.inputs = append(in.inputs, input{Name: n, Kind: "u", t: t})
			return ok(t)
		},
		"verifFile": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			in.files[strKey(args[0])] = args[1]
			return ok(args[0])
		},
		"verifCreateFails": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			in.createFails = true
			return nil, true
		},
		// evaluates a condition without forking the path on its operands
		"verifAnd": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.tt.and(args[0].(*Term), args[1].(*Term)))
		},
		"verifOr": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.tt.or(args[0].(*Term), args[1].(*Term)))
		},
		"verifIteU64": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.tt.ite(args[0].(*Term), args[1].(*Term), args[2].(*Term)))
		},
		"verifSymbolic": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.tt.tTrue)
		},
		// race detection and preemption only between these
		"verifRaceOn": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			in.raceOn = in.cfg.Race
			in.delays = in.cfg.Delays
			return nil, true
		},
		"verifRaceOff": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			in.raceOn = false
			in.delays = 0
			return nil, true
		},
	}
}

func (t *Term) zx(in *Interp) *Term { return in.tt.zext(t, 32) }

// assertion asks the solver for a counterexample.
func (in *Interp) assertion(c *Term, msg string) {
	in.asserts++
	at := in.place()
	if c.isC() {
		if c.k == 0 {
			in.violation("assert", msg)
			panic(pathEnd{"done", "assert"})
		}
		return
	}
	if v, okk := in.known[c]; okk {
		if !v {
			in.violation("assert", msg)
			panic(pathEnd{"done", "assert"})
		}
		return
	}
	if _, _, inside := in.recorded(at); inside {
		in.assumeRaw(c)
		return
	}
	nc := in.tt.not(c)
	r, _ := in.sol.check(in.pc, nc, false)
	switch r {
	case rUnknown:
		panic(pathEnd{"unknown", "assertion undecided: " + msg})
	case rSat:
		save := in.pc
		in.pc = append(append([]*Term{}, in.pc...), nc)
		in.violation("assert", msg)
		in.pc = save
		if rr, _ := in.sol.check(in.pc, c, false); rr != rSat {
			panic(pathEnd{"done", "assert"})
		}
	}
	in.decide(2, 2, at)
	in.assumeRaw(c)
}

func (in *Interp) violation(kind, msg string) {
	for _, v := range in.pathViol {
		if v.Kind == kind && v.Msg == msg {
			return
		}
	}
	ins, okk := in.modelInputs()
	if !okk {
		in.noted = append(in.noted, "no model for "+kind+" "+msg)
		return
	}
	sched := false
	if in.cfg.Delays > 0 {
		for _, d := range in.dec {
			if d.K == 4 {
				sched = true
			}
		}
	}
	in.pathViol = append(in.pathViol, &Violation{Run: in.cfg, Kind: kind, Msg: msg, Inputs: ins,
		Dec: append([]Decision{}, in.dec...), Sched: sched || kind == "race" || kind == "deadlock"})
}

// modelInputs solves the whole path condition and renders every harness input.
func (in *Interp) modelInputs() ([]ReplayInput, bool) {
	r, m := in.sol.check(in.pc, nil, true)
	if r != rSat {
		return nil, false
	}
	memo := map[int32]*Term{}
	ev := func(t *Term, def uint64) uint64 {
		e := in.tt.eval(t, m, memo)
		if !e.isC() {
			// unconstrained variables: any value
			m2 := map[int32]uint64{}
			for k, v := range m {
				m2[k] = v
			}
			for _, v := range t.fv() {
				if _, okk := m2[v]; !okk {
					m2[v] = def
				}
			}
			e = in.tt.eval(t, m2, map[int32]*Term{})
		}
		return e.k
	}
	idents := map[uint64]string{}
	for _, i := range in.inputs {
		if i.Kind == "id" && i.at.isNum == nil {
			idents[i.at.code.k] = identText(i.Name)
		}
	}
	var out []ReplayInput
	for _, i := range in.inputs {
		ri := ReplayInput{Name: i.Name}
		switch i.Kind {
		case "u":
			ri.Num = strconv.FormatUint(ev(i.t, 0), 10)
		case "b":
			bs := make([]byte, len(i.bs))
			for k, t := range i.bs {
				bs[k] = byte(ev(t, 0))
			}
			ri.Hex = hex.EncodeToString(bs)
		case "id", "tok":
			s := ""
			a := i.at
			if a.isFlt {
				s = strconv.FormatFloat(math.Float64frombits(ev(a.fval, 0)), 'e', -1, 64)
			} else if a.isNum != nil && ev(a.isNum, 0) == 1 {
				s = strconv.FormatInt(int64(ev(a.val, 0)), 10)
			} else if i.Kind == "id" {
				s = identText(i.Name)
			} else {
				c := ev(a.code, 0x7fffffff)
				if str, okk := in.codeStr[c]; okk {
					s = str
				} else if t, okk := idents[c]; okk {
					s = t
				} else {
					s = fmt.Sprintf("Wd%dx", c)
				}
			}
			ri.Hex = hex.EncodeToString([]byte(s))
		}
		out = append(out, ri)
	}
	return out, true
}
