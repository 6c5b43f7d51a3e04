package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool)

func (w *World) intrinsic(fn *ssa.Function) intrinsic {
	if v, ok := w.intr.Load(fn); ok {
		return v.(intrinsic)
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	var h intrinsic
	p := pkgOf(fn)
	if p != nil && strings.HasPrefix(p.Pkg.Path(), modPath) && strings.HasPrefix(fn.Name(), "verif") && fn.Signature.Recv() == nil {
		h = harnessIntr[fn.Name()]
	} else {
		h = stdIntr[name]
		if h == nil && fn.Name() == "init" && fn.Synthetic == "package initializer" {
			h = func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) { return nil, true }
		}
		if h == nil && p != nil && p.Pkg.Path() == "fmt" {
			h = fmtIntr
		}
		if h == nil && p != nil && p.Pkg.Path() == "os" {
			h = osIntr
		}
	}
	w.intr.Store(fn, h)
	return h
}

func ok(v Value) (Value, bool) { return v, true }

func allConcrete(args []Value) bool {
	for _, a := range args {
		switch x := a.(type) {
		case string:
		case *Term:
			if !x.isC() {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (in *Interp) bool2(b bool) Value { return in.tt.boolC(b) }
func (in *Interp) int2(i int) Value   { return in.tt.bv(uint64(int64(i)), 64) }

func (in *Interp) strSlice(ss []string) Value {
	vals := make([]Value, len(ss))
	for i, s := range ss {
		vals[i] = s
	}
	if ss == nil {
		return Slice{}
	}
	return Slice{arr: arrOf(vals), len: len(vals), cap: len(vals)}
}

func sliceTerms(s Slice) []*Term {
	out := make([]*Term, s.len)
	for i := range out {
		out[i] = (*s.at(i)).(*Term)
	}
	return out
}

// matchAt: term for "needle occurs at position i of hay".
func (in *Interp) matchAt(hay, needle []*Term, i int) *Term {
	r := in.tt.tTrue
	for j := range needle {
		r = in.tt.and(r, in.tt.eq(hay[i+j], needle[j]))
		if r == in.tt.tFalse {
			break
		}
	}
	return r
}

func (in *Interp) indexOf(hay, needle []*Term) Value {
	for i := 0; i+len(needle) <= len(hay); i++ {
		if in.branch(in.matchAt(hay, needle, i)) {
			return in.int2(i)
		}
	}
	return in.int2(-1)
}

func (in *Interp) contains(hay, needle []*Term) *Term {
	r := in.tt.tFalse
	for i := 0; i+len(needle) <= len(hay); i++ {
		r = in.tt.or(r, in.matchAt(hay, needle, i))
	}
	return r
}

func (in *Interp) countIn(hay, needle []*Term) Value {
	if len(needle) == 1 {
		sum := in.tt.bv(0, 64)
		for _, h := range hay {
			sum = in.tt.bin(oAdd, sum, in.tt.ite(in.tt.eq(h, needle[0]), in.tt.bv(1, 64), in.tt.bv(0, 64)))
		}
		return sum
	}
	n := 0
	for i := 0; i+len(needle) <= len(hay); {
		if in.branch(in.matchAt(hay, needle, i)) {
			n++
			i += len(needle)
		} else {
			i++
		}
	}
	return in.int2(n)
}

// atomPred: an uninterpreted predicate on an opaque word.
func (in *Interp) atomPred(name string, a *Atom, arg string) Value {
	if a.code.isC() {
		if s, ok := in.codeStr[a.code.k]; ok {
			switch name {
			case "contains":
				return in.bool2(strings.Contains(s, arg))
			case "prefix":
				return in.bool2(strings.HasPrefix(s, arg))
			case "suffix":
				return in.bool2(strings.HasSuffix(s, arg))
			}
		}
	}
	if name == "prefix" && strings.HasPrefix(arg, "/") {
		// only block markers begin with a slash
		r := in.tt.tFalse
		if !a.code.isC() {
			for _, k := range in.w.slashWords() {
				if strings.HasPrefix(k, arg) {
					r = in.tt.or(r, in.tt.eq(a.code, in.intern(k)))
				}
			}
		}
		return r
	}
	return in.tt.variable(fmt.Sprintf("p!%s!%x!%s", name, a.code.h, sanit(arg)), sBool)
}

// slashWords are the constants of the code under test that begin with a slash.
func (w *World) slashWords() []string {
	w.slashOnce.Do(func() {
		for _, p := range w.pkgs {
			for _, m := range p.Members {
				if c, okk := m.(*ssa.NamedConst); okk && c.Value.Value != nil && c.Value.Value.Kind() == constant.String {
					if s := constant.StringVal(c.Value.Value); len(s) > 2 && s[0] == '/' {
						w.slash = append(w.slash, s)
					}
				}
			}
		}
		sort.Strings(w.slash)
	})
	return w.slash
}

func sanit(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' {
			b.WriteByte(c)
		} else {
			fmt.Fprintf(&b, "%%%02x", c)
		}
	}
	return b.String()
}

func isAtom(v Value) (*Atom, bool) { a, ok := v.(*Atom); return a, ok }

func (in *Interp) mkError(fr *frame, msg Value) Value {
	fn := in.w.findFunc("errors", "New")
	return in.call(fr, fn, []Value{msg}, nil, token.NoPos)
}

// numError builds a *strconv.NumError-like error value.
func (in *Interp) parseErr(fr *frame, what string) Value {
	return in.mkError(fr, "strconv."+what+": parsing word: invalid syntax")
}

var stdIntr map[string]intrinsic
var harnessIntr map[string]intrinsic

func strPred(name string, nat func(a, b string) bool) intrinsic {
	return func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
		if allConcrete(args) {
			return ok(in.bool2(nat(args[0].(string), args[1].(string))))
		}
		if a, isA := isAtom(args[0]); isA {
			if s, okk := args[1].(string); okk {
				return ok(in.atomPred(name, a, s))
			}
			in.unsupported("string predicate on opaque word")
		}
		if _, isA := isAtom(args[1]); isA {
			in.unsupported("string predicate on opaque word")
		}
		h, n := in.strBytes(args[0]), in.strBytes(args[1])
		switch name {
		case "contains":
			return ok(in.contains(h, n))
		case "prefix":
			if len(n) > len(h) {
				return ok(in.tt.tFalse)
			}
			return ok(in.matchAt(h, n, 0))
		case "suffix":
			if len(n) > len(h) {
				return ok(in.tt.tFalse)
			}
			return ok(in.matchAt(h, n, len(h)-len(n)))
		}
		return nil, false
	}
}

// strMap: a string->string function with concrete shortcut; opaque words become derived words.
func strMap(name string, nat func(a string) string, idOnAtom bool) intrinsic {
	return func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
		if s, okk := args[0].(string); okk {
			return ok(nat(s))
		}
		if a, isA := isAtom(args[0]); isA {
			if a.code.isC() {
				if s, okk := in.codeStr[a.code.k]; okk {
					return ok(nat(s))
				}
			}
			if idOnAtom || a.isNum != nil && a.ident == false && a.code.isC() {
				return ok(a)
			}
			return ok(in.derivedAtom(name + "(" + strKey(a) + ")"))
		}
		return nil, false
	}
}

func identityStr(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
	return ok(args[0])
}

func init() {
	stdIntr = map[string]intrinsic{
		"runtime.NumCPU": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.int2(in.cfg.CPU))
		},
		"runtime.GOMAXPROCS": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.int2(in.cfg.CPU))
		},
		"runtime.Gosched": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			in.yield(fr.th)
			return nil, true
		},
		"runtime.GC": noop,
		"runtime/debug.SetGCPercent": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.int2(100))
		},
		"strings.Contains":           strPred("contains", strings.Contains),
		"strings.HasPrefix":          strPred("prefix", strings.HasPrefix),
		"strings.HasSuffix":          strPred("suffix", strings.HasSuffix),
		"strings.ToUpper":            strMap("upper", strings.ToUpper, false),
		"strings.ToLower":            strMap("lower", strings.ToLower, false),
		"strings.TrimSpace":          strMap("trimspace", strings.TrimSpace, true),
		"strings.Title":              strMap("title", strings.Title, false),
		"strings.Clone":              identityStr,
		"internal/stringslite.Clone": identityStr,
		"strings.Index": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			if allConcrete(args) {
				return ok(in.int2(strings.Index(args[0].(string), args[1].(string))))
			}
			return ok(in.indexOf(in.strBytes(args[0]), in.strBytes(args[1])))
		},
		"strings.Count": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			if allConcrete(args) {
				return ok(in.int2(strings.Count(args[0].(string), args[1].(string))))
			}
			n := in.strBytes(args[1])
			if len(n) == 0 {
				return nil, false
			}
			return ok(in.countIn(in.strBytes(args[0]), n))
		},
		"strings.Fields": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			if s, okk := args[0].(string); okk {
				return ok(in.strSlice(strings.Fields(s)))
			}
			return nil, false
		},
		"strings.Split": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			if allConcrete(args) {
				return ok(in.strSlice(strings.Split(args[0].(string), args[1].(string))))
			}
			return nil, false
		},
		"strings.ReplaceAll": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			if allConcrete(args) {
				return ok(strings.ReplaceAll(args[0].(string), args[1].(string), args[2].(string)))
			}
			if a, isA := isAtom(args[0]); isA {
				return ok(in.derivedAtom("replace(" + strKey(a) + "," + strKey(args[1]) + "," + strKey(args[2]) + ")"))
			}
			return nil, false
		},
		"strings.Trim": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			if allConcrete(args) {
				return ok(strings.Trim(args[0].(string), args[1].(string)))
			}
			if a, isA := isAtom(args[0]); isA {
				return ok(in.derivedAtom("trim(" + strKey(a) + "," + strKey(args[1]) + ")"))
			}
			return nil, false
		},
		"strings.EqualFold": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			if allConcrete(args) {
				return ok(in.bool2(strings.EqualFold(args[0].(string), args[1].(string))))
			}
			if _, isA := isAtom(args[0]); isA {
				return ok(in.strEq(args[0], args[1]))
			}
			if _, isA := isAtom(args[1]); isA {
				return ok(in.strEq(args[0], args[1]))
			}
			return nil, false
		},
		"(*strings.Builder).copyCheck": noop,
		"(*strings.Builder).String": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			b := (*args[0].(*Value)).(Struct)
			if opq, okk := in.builders[args[0].(*Value)]; okk {
				return ok(opq)
			}
			return ok(in.mkStr(sliceTerms(b[len(b)-1].(Slice))))
		},
		"(*strings.Builder).WriteString": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			p := args[0].(*Value)
			cur, has := in.builders[p]
			_, isA := args[1].(*Atom)
			if has || isA {
				if !has {
					b := (*p).(Struct)
					cur = in.mkStr(sliceTerms(b[len(b)-1].(Slice)))
				}
				in.builders[p] = in.strCat(cur, args[1])
				return ok(Tuple{in.strLen(args[1]), Iface{}})
			}
			return nil, false
		},
		"internal/bytealg.IndexByteString": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.indexOf(in.strBytes(args[0]), []*Term{args[1].(*Term)}))
		},
		"internal/bytealg.IndexByte": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.indexOf(sliceTerms(args[0].(Slice)), []*Term{args[1].(*Term)}))
		},
		"internal/bytealg.CountString": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.countIn(in.strBytes(args[0]), []*Term{args[1].(*Term)}))
		},
		"internal/bytealg.Count": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.countIn(sliceTerms(args[0].(Slice)), []*Term{args[1].(*Term)}))
		},
		"internal/bytealg.IndexString": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.indexOf(in.strBytes(args[0]), in.strBytes(args[1])))
		},
		"internal/bytealg.Index": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.indexOf(sliceTerms(args[0].(Slice)), sliceTerms(args[1].(Slice))))
		},
		"internal/bytealg.Equal": bytesEqual,
		"bytes.Equal":            bytesEqual,
		"internal/bytealg.MakeNoZero": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			n := in.concInt(args[0])
			return ok(Slice{arr: newArr(n, in.tt.bv(0, 8)), len: n, cap: n})
		},
		"bytes.Contains": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.contains(sliceTerms(args[0].(Slice)), sliceTerms(args[1].(Slice))))
		},
		"strings.Compare": nil,
		"strconv.ParseUint": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			a, isA := isAtom(args[0])
			if !isA {
				return nil, false
			}
			return ok(in.parseInt(fr, a, in.concInt(args[1]), in.concInt(args[2]), false))
		},
		"strconv.ParseInt": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			a, isA := isAtom(args[0])
			if !isA {
				return nil, false
			}
			return ok(in.parseInt(fr, a, in.concInt(args[1]), in.concInt(args[2]), true))
		},
		"strconv.Atoi": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			a, isA := isAtom(args[0])
			if !isA {
				return nil, false
			}
			return ok(in.parseInt(fr, a, 10, 64, true))
		},
		"strconv.ParseBool": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			if _, isA := isAtom(args[0]); isA {
				return ok(Tuple{in.tt.tFalse, in.parseErr(fr, "ParseBool")})
			}
			return nil, false
		},
		"strconv.ParseFloat": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			a, isA := isAtom(args[0])
			if !isA {
				if s, okk := args[0].(string); okk {
					f, err := strconv.ParseFloat(s, in.concInt(args[1]))
					if err != nil {
						return ok(Tuple{in.tt.f64(f), in.parseErr(fr, "ParseFloat")})
					}
					return ok(Tuple{in.tt.f64(f), Iface{}})
				}
				return nil, false
			}
			return ok(in.parseFloat(fr, a, in.concInt(args[1])))
		},
		"strconv.Itoa":        fmtNum,
		"strconv.FormatInt":   fmtNum,
		"strconv.FormatUint":  fmtNum,
		"strconv.FormatFloat": fmtNum,
		"strconv.Quote":       fmtNum,
		"math.Float64bits": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.tt.toBits(args[0].(*Term)))
		},
		"math.Float32bits": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.tt.toBits(args[0].(*Term)))
		},
		"math.Float64frombits": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.tt.fromBits(args[0].(*Term)))
		},
		"math.Float32frombits": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.tt.fromBits(args[0].(*Term)))
		},
		"math.IsNaN": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.tt.funary(oFisNaN, args[0].(*Term), sBool, 0))
		},
		"math.IsInf": nil,
		"math.Abs": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.tt.funary(oFabs, args[0].(*Term), sF64, 0))
		},
		"math.Sqrt": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.tt.funary(oFsqrt, args[0].(*Term), sF64, 0))
		},
		"math.Trunc": fround(1), "math.Ceil": fround(2), "math.Floor": fround(3),
		"math.Round": fround(4), "math.RoundToEven": fround(0),
		"math.Pow": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			x, y := args[0].(*Term), args[1].(*Term)
			if x.isC() && y.isC() {
				return ok(in.tt.f64(math.Pow(x.fval(), y.fval())))
			}
			if y.isC() && y.fval() == 2 {
				return ok(in.tt.fbin(oFmul, x, x))
			}
			if y.isC() && y.fval() == 1 {
				return ok(x)
			}
			in.unsupported("math.Pow")
			return nil, true
		},
		"math.FMA": nil,
		// sync
		"(*sync.Mutex).Lock":     syncP(func(in *Interp, fr *frame, p *Value) { in.lock(fr, p) }),
		"(*sync.Mutex).Unlock":   syncP(func(in *Interp, fr *frame, p *Value) { in.unlock(fr, p) }),
		"(*sync.RWMutex).Lock":   syncP(func(in *Interp, fr *frame, p *Value) { in.lock(fr, p) }),
		"(*sync.RWMutex).Unlock": syncP(func(in *Interp, fr *frame, p *Value) { in.unlock(fr, p) }),
		"(*sync.RWMutex).RLock":  syncP(func(in *Interp, fr *frame, p *Value) { in.rlock(fr, p) }),
		"(*sync.RWMutex).RUnlock": syncP(func(in *Interp, fr *frame, p *Value) {
			in.runlock(fr, p)
		}),
		"(*sync.Mutex).TryLock": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			in.yield(fr.th)
			m := in.mutex(args[0].(*Value))
			if m.w || m.r > 0 {
				return ok(in.tt.tFalse)
			}
			m.w = true
			fr.th.vc = join(fr.th.vc, m.vc)
			return ok(in.tt.tTrue)
		},
		"(*sync.WaitGroup).Add": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			in.nilchk(fr, args[0])
			in.wgAdd(fr, args[0].(*Value), int64(in.concInt(args[1])))
			return nil, true
		},
		"(*sync.WaitGroup).Done": syncP(func(in *Interp, fr *frame, p *Value) { in.wgAdd(fr, p, -1) }),
		"(*sync.WaitGroup).Wait": syncP(func(in *Interp, fr *frame, p *Value) { in.wgWait(fr, p) }),
		"(*sync.WaitGroup).Go": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			p := args[0].(*Value)
			f := args[1].(*Fn)
			in.wgAdd(fr, p, 1)
			in.spawn(fr, &Fn{native: func(c *frame, a []Value) Value {
				in.callFn(c, f, nil, token.NoPos)
				in.wgAdd(c, p, -1)
				return nil
			}}, nil, token.NoPos)
			return nil, true
		},
		"(*sync.Once).Do": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			p := args[0].(*Value)
			in.lock(fr, p)
			if !in.onces[p] {
				in.onces[p] = true
				in.callFn(fr, args[1].(*Fn), nil, token.NoPos)
			}
			in.unlock(fr, p)
			return nil, true
		},
		"sort.Slice":       sortSlice,
		"sort.SliceStable": sortSlice,
		"errors.Is": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			return ok(in.equals(fn.Signature.Params().At(0).Type(), args[0], args[1]))
		},
		"regexp.MustCompile": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			p := new(Value)
			*p = Struct{}
			in.regexps[p] = args[0].(string)
			return ok(p)
		},
		"(*regexp.Regexp).ReplaceAll": func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			pat, okk := in.regexps[args[0].(*Value)]
			if !okk {
				in.unsupported("regexp")
			}
			src := sliceTerms(args[1].(Slice))
			repl := sliceTerms(args[2].(Slice))
			s, conc := in.mkStr(src).(string)
			r, conc2 := in.mkStr(repl).(string)
			if conc && conc2 {
				out := regexp.MustCompile(pat).ReplaceAll([]byte(s), []byte(r))
				return ok(in.convert(fr, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), string(out)))
			}
			// symbolic text: supported when no character class of the pattern can start a match
			if pat == `\\.` {
				for _, b := range src {
					if in.branch(in.tt.eq(b, in.tt.bv('\\', 8))) {
						in.unsupported("regexp on text with symbolic backslash")
					}
				}
				return ok(args[1])
			}
			in.unsupported("regexp on symbolic text")
			return nil, true
		},
	}
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr"} {
		stdIntr["sync/atomic.Add"+w] = func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			p := args[0].(*Value)
			in.nilchk(fr, p)
			in.atomicSync(fr, p)
			v := in.tt.bin(oAdd, (*p).(*Term), args[1].(*Term))
			in.store(p, v)
			return ok(v)
		}
		stdIntr["sync/atomic.Load"+w] = func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			p := args[0].(*Value)
			in.nilchk(fr, p)
			in.atomicSync(fr, p)
			return ok(*p)
		}
		stdIntr["sync/atomic.Store"+w] = func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			p := args[0].(*Value)
			in.nilchk(fr, p)
			in.atomicSync(fr, p)
			in.store(p, args[1])
			return nil, true
		}
		stdIntr["sync/atomic.Swap"+w] = func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			p := args[0].(*Value)
			in.nilchk(fr, p)
			in.atomicSync(fr, p)
			o := *p
			in.store(p, args[1])
			return ok(o)
		}
		stdIntr["sync/atomic.CompareAndSwap"+w] = func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
			p := args[0].(*Value)
			in.nilchk(fr, p)
			in.atomicSync(fr, p)
			if in.branch(in.tt.eq((*p).(*Term), args[1].(*Term))) {
				in.store(p, args[2])
				return ok(in.tt.tTrue)
			}
			return ok(in.tt.tFalse)
		}
	}
	harnessIntr = harnessIntrinsics()
}

func (in *Interp) nilchk(fr *frame, v Value) {
	if p, okk := v.(*Value); !okk || p == nil {
		in.panicT(fr, "invalid memory address or nil pointer dereference", token.NoPos)
	}
}

func syncP(f func(in *Interp, fr *frame, p *Value)) intrinsic {
	return func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
		in.nilchk(fr, args[0])
		f(in, fr, args[0].(*Value))
		return nil, true
	}
}

func noop(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
	return in.zeroResult(fn.Signature), true
}

func fround(k uint64) intrinsic {
	return func(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
		return ok(in.tt.funary(oFrnd, args[0].(*Term), sF64, k))
	}
}

func bytesEqual(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
	a, b := sliceTerms(args[0].(Slice)), sliceTerms(args[1].(Slice))
	if len(a) != len(b) {
		return ok(in.tt.tFalse)
	}
	return ok(in.matchAt(a, b, 0))
}

func fmtNum(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
	if allConcrete(args) {
		t, _ := args[0].(*Term)
		switch fn.Name() {
		case "Itoa":
			return ok(strconv.Itoa(int(t.k)))
		case "FormatInt":
			return ok(strconv.FormatInt(int64(t.k), int(args[1].(*Term).k)))
		case "FormatUint":
			return ok(strconv.FormatUint(t.k, int(args[1].(*Term).k)))
		case "FormatFloat":
			return ok(strconv.FormatFloat(t.fval(), byte(args[1].(*Term).k), int(int64(args[2].(*Term).k)), int(args[3].(*Term).k)))
		case "Quote":
			return ok(strconv.Quote(args[0].(string)))
		}
	}
	return ok(in.derivedAtom(fmt.Sprintf("num(%s,%s)", fn.Name(), valKey(args))))
}

func valKey(args []Value) string {
	var b strings.Builder
	for _, a := range args {
		switch x := a.(type) {
		case *Term:
			fmt.Fprintf(&b, "t%x;", x.h)
		default:
			b.WriteString(strKey(a) + ";")
		}
	}
	return b.String()
}

func sortSlice(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
	i := args[0].(Iface)
	s := i.v.(Slice)
	less := args[1].(*Fn)
	// insertion sort through the real comparison closure
	for a := 1; a < s.len; a++ {
		for b := a; b > 0; b-- {
			r := in.callFn(fr, less, []Value{in.int2(b), in.int2(b - 1)}, token.NoPos).(*Term)
			if !in.branch(r) {
				break
			}
			x, y := copyVal(*s.at(b)), copyVal(*s.at(b - 1))
			in.storeVal(s.at(b), y)
			in.storeVal(s.at(b-1), x)
		}
	}
	return nil, true
}

// fmt functions: exact for concrete simple arguments, opaque text otherwise.
func fmtIntr(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
	name := fn.Name()
	switch name {
	case "Sprint", "Sprintf", "Sprintln", "Errorf":
	case "Print", "Println", "Printf", "Fprint", "Fprintf", "Fprintln":
		return in.zeroResult(fn.Signature), true
	default:
		in.unsupported("call of " + fn.String())
	}
	var format string
	fOK := true
	var va Slice
	if name == "Sprintf" || name == "Errorf" {
		format, fOK = args[0].(string)
		va = args[1].(Slice)
	} else {
		va = args[0].(Slice)
	}
	var nat []any
	conc := fOK
	for i := 0; i < va.len; i++ {
		e := (*va.at(i)).(Iface)
		n, okk := natVal(e)
		if !okk {
			conc = false
		}
		nat = append(nat, n)
	}
	var s Value
	if conc {
		switch name {
		case "Sprint":
			s = fmt.Sprint(nat...)
		case "Sprintln":
			s = fmt.Sprintln(nat...)
		default:
			s = fmt.Sprintf(format, nat...)
		}
	} else {
		in.codeCnt++
		s = &Atom{code: in.tt.bv(0x40000000+in.codeCnt, 32), ident: true, name: "fmt"}
	}
	if name == "Errorf" {
		return in.mkError(fr, s), true
	}
	return s, true
}

func natVal(e Iface) (any, bool) {
	if e.t == nil {
		return nil, true
	}
	switch x := e.v.(type) {
	case string:
		return x, isString(e.t) && !hasMethods(e.t)
	case *Term:
		if !x.isC() || hasMethods(e.t) {
			return nil, false
		}
		b, okk := e.t.Underlying().(*types.Basic)
		if !okk {
			return nil, false
		}
		if x.sort == sBool {
			return x.k != 0, true
		}
		if x.sort == sF64 || x.sort == sF32 {
			if x.sort == sF32 {
				return float32(x.fval()), true
			}
			return x.fval(), true
		}
		_, signed, _ := intSort(b)
		if signed {
			return sx(x.k, x.sort), true
		}
		return x.k, true
	}
	return nil, false
}

func hasMethods(t types.Type) bool {
	return types.NewMethodSet(t).Len() > 0
}

// openFile is a file opened for reading.
type openFile struct {
	b   []*Term
	pos int
}

func osIntr(in *Interp, fr *frame, fn *ssa.Function, args []Value) (Value, bool) {
	switch fn.String() {
	case "os.ReadFile":
		v, okk := in.files[strKey(args[0])]
		if !okk {
			return Tuple{Slice{}, in.mkError(fr, "open: no such file or directory")}, true
		}
		return Tuple{in.convert(fr, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), v), Iface{}}, true
	case "os.Create", "os.OpenFile":
		if in.createFails {
			return Tuple{(*Value)(nil), in.mkError(fr, "open: permission denied")}, true
		}
		p := new(Value)
		*p = Struct{(*Value)(nil)}
		return Tuple{p, Iface{}}, true
	case "os.Open":
		v, okk := in.files[strKey(args[0])]
		if !okk {
			return Tuple{(*Value)(nil), in.mkError(fr, "open: no such file or directory")}, true
		}
		p := new(Value)
		*p = Struct{(*Value)(nil)}
		in.open[p] = &openFile{b: in.strBytes(v)}
		return Tuple{p, Iface{}}, true
	case "(*os.File).Read":
		p, _ := args[0].(*Value)
		f := in.open[p]
		if f == nil {
			break
		}
		d := args[1].(Slice)
		n := min(d.len, len(f.b)-f.pos)
		if n == 0 && d.len > 0 {
			g, _ := in.w.prog.ImportedPackage("io").Members["EOF"].(*ssa.Global)
			return Tuple{in.tt.bv(0, 64), copyVal(*in.global(g))}, true
		}
		for i := 0; i < n; i++ {
			in.storeVal(d.at(i), f.b[f.pos+i])
		}
		f.pos += n
		return Tuple{in.tt.bv(uint64(n), 64), Iface{}}, true
	case "(*os.File).Close", "(*os.File).Sync":
		return Iface{}, true
	case "os.Getenv":
		return "", true
	}
	in.unsupported("call of " + fn.String())
	return nil, true
}

// ---- numeric reading of opaque words ----

func (in *Interp) parseInt(fr *frame, a *Atom, base, bits int, signed bool) Value {
	tt := in.tt
	what := "ParseUint"
	if signed {
		what = "ParseInt"
	}
	if bits == 0 {
		bits = 64
	}
	if a.code.isC() {
		if s, okk := in.codeStr[a.code.k]; okk {
			f := in.w.findFunc("strconv", what)
			return in.call(fr, f, []Value{s, in.int2(base), in.int2(bits)}, nil, token.NoPos)
		}
	}
	if a.isNum == nil || a.isFlt {
		return Tuple{tt.bv(0, 64), in.parseErr(fr, what)}
	}
	if base != 10 && base != 0 {
		// the decimal literal read in another base: not modelled
		in.unsupported("number parsed in base " + strconv.Itoa(base))
	}
	if !in.branch(a.isNum) {
		if !a.code.isC() && !a.ident {
			// may be a keyword, which is never a number
		}
		return Tuple{tt.bv(0, 64), in.parseErr(fr, what)}
	}
	var okT, sat *Term
	if signed {
		lo, hi := uint64(1)<<(bits-1), uint64(1)<<(bits-1)-1
		okT = tt.and(tt.cmp(oSle, tt.bv(-lo, 64), a.val), tt.cmp(oSle, a.val, tt.bv(hi, 64)))
		sat = tt.ite(tt.cmp(oSlt, a.val, tt.bv(0, 64)), tt.bv(-lo, 64), tt.bv(hi, 64))
	} else {
		// "-5" is a syntax error (value 0), too large a range error (value max)
		neg := tt.cmp(oSlt, a.val, tt.bv(0, 64))
		if in.branch(neg) {
			return Tuple{tt.bv(0, 64), in.parseErr(fr, what)}
		}
		mx := mask(Sort(bits))
		okT = tt.cmp(oUle, a.val, tt.bv(mx, 64))
		sat = tt.bv(mx, 64)
	}
	if in.branch(okT) {
		return Tuple{a.val, Iface{}}
	}
	return Tuple{sat, in.mkError(fr, "strconv."+what+": value out of range")}
}

func (in *Interp) parseFloat(fr *frame, a *Atom, bits int) Value {
	tt := in.tt
	if a.code.isC() {
		if s, okk := in.codeStr[a.code.k]; okk {
			f, err := strconv.ParseFloat(s, bits)
			if err != nil {
				return Tuple{tt.f64(f), in.parseErr(fr, "ParseFloat")}
			}
			return Tuple{tt.f64(f), Iface{}}
		}
	}
	var v *Term
	if a.isFlt {
		v = a.fval
	} else if a.isNum != nil {
		if !in.branch(a.isNum) {
			return Tuple{tt.f64(0), in.parseErr(fr, "ParseFloat")}
		}
		v = tt.funary(oStoF, a.val, sF64, 0)
	} else {
		return Tuple{tt.f64(0), in.parseErr(fr, "ParseFloat")}
	}
	if bits == 32 {
		n := tt.funary(oFcast, v, sF32, 0)
		v = tt.funary(oFcast, n, sF64, 0)
	}
	return Tuple{v, Iface{}}
}
