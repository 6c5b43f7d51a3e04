package main

import (
	"fmt"
	"go/types"
	"hash/fnv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is a value of the interpreted program:
//
//	*Term            bool, integers, floats
//	string, *SymStr, *Atom   strings
//	*Value           pointers (address of a cell)
//	Struct, *Arr     structs and arrays (by value, copied on load/store)
//	Slice, *Map, *Chan, *Fn, Iface, Tuple
type Value = any

type Struct []Value
type Tuple []Value

const blk = 64

// Arr is array storage, allocated lazily in blocks.
type Arr struct {
	n    int
	zero Value
	blks [][]Value
}

func newArr(n int, zero Value) *Arr {
	return &Arr{n: n, zero: zero, blks: make([][]Value, (n+blk-1)/blk)}
}

func (a *Arr) at(i int) *Value {
	b := a.blks[i/blk]
	if b == nil {
		sz := blk
		if r := a.n - (i/blk)*blk; r < sz {
			sz = r
		}
		b = make([]Value, sz)
		for j := range b {
			b[j] = copyVal(a.zero)
		}
		a.blks[i/blk] = b
	}
	return &b[i%blk]
}

func arrOf(vals []Value) *Arr {
	a := newArr(len(vals), nil)
	for i, v := range vals {
		b := a.blks[i/blk]
		if b == nil {
			sz := blk
			if r := a.n - (i/blk)*blk; r < sz {
				sz = r
			}
			b = make([]Value, sz)
			a.blks[i/blk] = b
		}
		b[i%blk] = v
	}
	return a
}

type Slice struct {
	arr           *Arr
	off, len, cap int
}

func (s Slice) at(i int) *Value { return s.arr.at(s.off + i) }

type SymStr struct{ b []*Term }

// Atom is an opaque string (a whole word of the input). Two atoms are equal iff their
// codes are equal; constant strings have codes too (see Interp.intern).
type Atom struct {
	code *Term
	name string // harness name, for replay
	// numeric reading of the word, if it has one
	isNum *Term // Bool: the word is a decimal integer
	val   *Term // BV64 signed value if isNum
	isFlt bool  // the word is a float literal (not an integer literal)
	fval  *Term // FP64
	ident bool  // never numeric
	ln    *Term // length, created on demand
}

type Iface struct {
	t types.Type
	v Value
}

type Fn struct {
	fn     *ssa.Function
	env    []Value
	native func(fr *frame, args []Value) Value
	bi     *ssa.Builtin
}

type mapEnt struct {
	k, v Value
	sym  bool
	dead bool
}

type Map struct {
	kt, vt types.Type
	ents   []*mapEnt
	idx    map[any]int
	nsym   int
	n      int
	base   bool
	saved  bool
	id     *Value // pseudo cell for race detection
}

type Chan struct {
	cap    int
	buf    []chanItem
	closed bool
	cvc    vclock // close clock
	recvq  int    // number of receivers waiting (unbuffered rendezvous)
	rvcs   []vclock
	sent   int
	rcvd   int
	et     types.Type
	// unbuffered hand-over
	offers []*offer
}

type chanItem struct {
	v  Value
	vc vclock
}

type offer struct {
	v     Value
	vc    vclock
	taken bool
	rvc   vclock
}

type DataPtr struct{ s Slice }

type mapIter struct {
	m    *Map
	keys []*mapEnt
	i    int
}

type strIter struct {
	s Value
	i int
}

func copyVal(v Value) Value {
	switch x := v.(type) {
	case Struct:
		n := make(Struct, len(x))
		for i, f := range x {
			n[i] = copyVal(f)
		}
		return n
	case *Arr:
		n := &Arr{n: x.n, zero: x.zero, blks: make([][]Value, len(x.blks))}
		for i, b := range x.blks {
			if b == nil {
				continue
			}
			nb := make([]Value, len(b))
			for j, e := range b {
				nb[j] = copyVal(e)
			}
			n.blks[i] = nb
		}
		return n
	}
	return v
}

func intSort(b *types.Basic) (Sort, bool, bool) { // width, signed, isInt
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func isFloat(t types.Type) (Sort, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Float32:
		return sF32, true
	case types.Float64, types.UntypedFloat:
		return sF64, true
	}
	return 0, false
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (in *Interp) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intSort(u); ok {
			return in.tt.bv(0, w)
		}
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return in.tt.tFalse
		case types.String, types.UntypedString:
			return ""
		case types.Float32:
			return in.tt.f32(0)
		case types.Float64, types.UntypedFloat:
			return in.tt.f64(0)
		case types.UnsafePointer:
			return (*Value)(nil)
		case types.UntypedNil:
			return nil
		}
		in.unsupported("zero of " + t.String())
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = in.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return newArr(int(u.Len()), in.zero(u.Elem()))
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Fn)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = in.zero(u.At(i).Type())
		}
		return tp
	}
	in.unsupported("zero of " + t.String())
	return nil
}

// ---- strings ----

func (in *Interp) strLen(v Value) *Term {
	switch s := v.(type) {
	case string:
		return in.tt.bv(uint64(len(s)), 64)
	case *SymStr:
		return in.tt.bv(uint64(len(s.b)), 64)
	case *Atom:
		if s.ln == nil {
			if s.code.isC() {
				if str, ok := in.codeStr[s.code.k]; ok {
					return in.tt.bv(uint64(len(str)), 64)
				}
			}
			key := fmt.Sprintf("len!%x", s.code.h)
			s.ln = in.tt.variable(key, 64)
			in.assumeRaw(in.tt.and(in.tt.cmp(oUle, in.tt.bv(1, 64), s.ln), in.tt.cmp(oUle, s.ln, in.tt.bv(40, 64))))
		}
		return s.ln
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func (in *Interp) strBytes(v Value) []*Term {
	switch s := v.(type) {
	case string:
		out := make([]*Term, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = in.tt.bv(uint64(s[i]), 8)
		}
		return out
	case *SymStr:
		return s.b
	}
	in.unsupported("bytes of opaque word")
	return nil
}

func (in *Interp) mkStr(b []*Term) Value {
	conc := true
	for _, t := range b {
		if !t.isC() {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, t := range b {
			bs[i] = byte(t.k)
		}
		return string(bs)
	}
	return &SymStr{b}
}

func (in *Interp) intern(s string) *Term {
	c, ok := in.strCode[s]
	if !ok {
		// the code does not depend on the order in which words are seen
		h := fnv.New32a()
		h.Write([]byte(s))
		c = uint64(h.Sum32() & 0x3fffffff)
		for in.codeStr[c] != "" {
			c = (c + 1) & 0x3fffffff
		}
		in.strCode[s] = c
		in.codeStr[c] = s
	}
	return in.tt.bv(c, 32)
}

func (in *Interp) strEq(a, b Value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return in.tt.boolC(x == y)
		}
	}
	aa, ok1 := a.(*Atom)
	ba, ok2 := b.(*Atom)
	if ok1 || ok2 {
		if ok1 && ok2 {
			return in.tt.eq(aa.code, ba.code)
		}
		at, o := aa, b
		if ok2 {
			at, o = ba, a
		}
		if s, ok := o.(string); ok {
			if at.code.isC() {
				if cs, ok := in.codeStr[at.code.k]; ok {
					return in.tt.boolC(cs == s)
				}
				return in.tt.tFalse
			}
			return in.tt.eq(at.code, in.intern(s))
		}
		in.unsupported("comparison of opaque word with byte string")
	}
	x, y := in.strBytes(a), in.strBytes(b)
	if len(x) != len(y) {
		return in.tt.tFalse
	}
	r := in.tt.tTrue
	for i := range x {
		r = in.tt.and(r, in.tt.eq(x[i], y[i]))
	}
	return r
}

func (in *Interp) strLess(a, b Value) *Term { // a < b
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return in.tt.boolC(x < y)
		}
	}
	x, y := in.strBytes(a), in.strBytes(b)
	n := min(len(x), len(y))
	r := in.tt.boolC(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = in.tt.ite(in.tt.eq(x[i], y[i]), r, in.tt.cmp(oUlt, x[i], y[i]))
	}
	return r
}

func (in *Interp) freshCode() *Term {
	in.codeCnt++
	return in.tt.bv(0x40000000+in.codeCnt, 32)
}

func (in *Interp) derivedAtom(key string) *Atom {
	if a, ok := in.derived[key]; ok {
		return a
	}
	a := &Atom{code: in.freshCode(), ident: true, name: key}
	in.derived[key] = a
	return a
}

func strKey(v Value) string {
	switch s := v.(type) {
	case string:
		return "s" + s
	case *Atom:
		return fmt.Sprintf("a%x", s.code.h)
	case *SymStr:
		var b strings.Builder
		b.WriteString("y")
		for _, t := range s.b {
			fmt.Fprintf(&b, "%x,", t.h)
		}
		return b.String()
	}
	return fmt.Sprintf("?%T", v)
}

func (in *Interp) strCat(a, b Value) Value {
	if x, ok := a.(string); ok {
		if x == "" {
			return b
		}
		if y, ok := b.(string); ok {
			return x + y
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	_, ok1 := a.(*Atom)
	_, ok2 := b.(*Atom)
	if ok1 || ok2 {
		return in.derivedAtom("cat(" + strKey(a) + "," + strKey(b) + ")")
	}
	return in.mkStr(append(append([]*Term{}, in.strBytes(a)...), in.strBytes(b)...))
}

// ---- map keys ----

type atomKey struct{ c uint64 }
type ifKey struct {
	t string
	k any
}

// canonKey returns a Go-comparable key if v is fully concrete.
func canonKey(v Value) (any, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case *Term:
		if x.isC() {
			return x.k, true
		}
		return nil, false
	case *Atom:
		if x.code.isC() {
			return atomKey{x.code.k}, true
		}
		return nil, false
	case *SymStr:
		return nil, false
	case *Value:
		return x, true
	case *Chan:
		return x, true
	case Iface:
		if x.t == nil {
			return ifKey{"", nil}, true
		}
		k, ok := canonKey(x.v)
		return ifKey{x.t.String(), k}, ok
	case Struct:
		var b strings.Builder
		for _, f := range x {
			k, ok := canonKey(f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&b, "%T:%v;", k, k)
		}
		return ifKey{"struct", b.String()}, true
	case *Arr:
		var b strings.Builder
		for i := 0; i < x.n; i++ {
			k, ok := canonKey(*x.at(i))
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&b, "%T:%v;", k, k)
		}
		return ifKey{"arr", b.String()}, true
	}
	return nil, false
}

// equals builds the equality term of two values of the same static type.
func (in *Interp) equals(t types.Type, a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.sort == sF32 || x.sort == sF64 {
			return in.tt.fcmp(oFeq, x, y)
		}
		return in.tt.eq(x, y)
	case string, *SymStr, *Atom:
		return in.strEq(a, b)
	case *Value:
		y, ok := b.(*Value)
		return in.tt.boolC(ok && x == y)
	case *Chan:
		return in.tt.boolC(x == b.(*Chan))
	case *Map:
		return in.tt.boolC(x == b.(*Map))
	case *Fn:
		return in.tt.boolC(x == b.(*Fn))
	case Slice:
		return in.tt.boolC(x.arr == nil && b.(Slice).arr == nil)
	case Struct:
		y := b.(Struct)
		st := t.Underlying().(*types.Struct)
		r := in.tt.tTrue
		for i := range x {
			r = in.tt.and(r, in.equals(st.Field(i).Type(), x[i], y[i]))
		}
		return r
	case *Arr:
		y := b.(*Arr)
		et := t.Underlying().(*types.Array).Elem()
		r := in.tt.tTrue
		for i := 0; i < x.n; i++ {
			r = in.tt.and(r, in.equals(et, *x.at(i), *y.at(i)))
		}
		return r
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			in.unsupported("interface comparison with non-interface")
		}
		if x.t == nil || y.t == nil {
			return in.tt.boolC(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return in.tt.tFalse
		}
		return in.equals(x.t, x.v, y.v)
	case DataPtr:
		return in.tt.tFalse
	case nil:
		return in.tt.boolC(b == nil)
	}
	in.unsupported(fmt.Sprintf("comparison of %T", a))
	return nil
}
