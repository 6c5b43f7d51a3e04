package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Sort of a term: 0 = Bool, 1..64 = bit-vector of that width, sF32/sF64 = IEEE float.
type Sort uint8

const (
	sBool Sort = 0
	sF32  Sort = 132
	sF64  Sort = 164
)

func (s Sort) smt() string {
	switch s {
	case sBool:
		return "Bool"
	case sF32:
		return "(_ FloatingPoint 8 24)"
	case sF64:
		return "(_ FloatingPoint 11 53)"
	}
	return fmt.Sprintf("(_ BitVec %d)", int(s))
}

type Op uint8

const (
	oConst Op = iota
	oVar
	oNot
	oAnd
	oOr
	oEq
	oIte
	oAdd
	oSub
	oMul
	oUdiv
	oUrem
	oSdiv
	oSrem
	oBand
	oBor
	oBxor
	oBnot
	oShl
	oLshr
	oAshr
	oUlt
	oUle
	oSlt
	oSle
	oZext
	oSext
	oExtract // k = hi<<8|lo
	oConcat
	oFromBits // bv -> fp
	oToBits   // fp -> bv
	oFadd
	oFsub
	oFmul
	oFdiv
	oFneg
	oFeq
	oFlt
	oFle
	oFisNaN
	oFcast // fp -> fp
	oUtoF  // unsigned bv -> fp
	oStoF  // signed bv -> fp
	oFtoU  // fp -> unsigned bv (RTZ)
	oFtoS  // fp -> signed bv (RTZ)
	oFsqrt
	oFabs
	oFrnd // round to integral, k=mode 0 RNE,1 RTZ,2 RTP(ceil),3 RTN(floor),4 RNA
	oFrem
)

// Term is a hash-consed expression.
type Term struct {
	id   int32
	h    uint64 // structural hash
	op   Op
	sort Sort
	a    *Term
	b    *Term
	c    *Term
	k    uint64
	name string
	vars []int32 // sorted ids of variables, computed lazily
	vok  bool
	cl   int32 // size if the term is an ite tree with constant leaves, else 0
}

type termKey struct {
	op      Op
	sort    Sort
	a, b, c int32
	k       uint64
	name    string
}

// TermTable owns all terms of one worker.
type TermTable struct {
	tab    map[termKey]*Term
	all    []*Term
	small  [65][]*Term
	tTrue  *Term
	tFalse *Term

	canonMemo map[*Term]*Term
	canonTab  map[string]*Term
	linMemo   map[*Term]*linForm
}

func newTermTable() *TermTable {
	tt := &TermTable{tab: map[termKey]*Term{}, canonMemo: map[*Term]*Term{}, canonTab: map[string]*Term{}, linMemo: map[*Term]*linForm{}}
	tt.tFalse = tt.mk(oConst, sBool, nil, nil, nil, 0, "")
	tt.tTrue = tt.mk(oConst, sBool, nil, nil, nil, 1, "")
	for _, w := range []int{8, 16, 32, 64} {
		tt.small[w] = make([]*Term, 1024)
	}
	return tt
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

// structHash depends on the structure of a term only.
func structHash(t *Term) uint64 {
	h := uint64(14695981039346656037)
	add := func(x uint64) {
		h ^= x
		h *= 0x9E3779B97F4A7C15
		h ^= h >> 29
	}
	add(uint64(t.op)<<16 | uint64(t.sort))
	add(t.k)
	for i := 0; i < len(t.name); i++ {
		h = (h ^ uint64(t.name[i])) * 1099511628211
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			add(x.h)
		} else {
			add(1)
		}
	}
	return h
}

// before is the order of the operands of commutative operations: the same in every worker.
func before(a, b *Term) bool {
	return a.h < b.h || a.h == b.h && a.id < b.id
}

func (tt *TermTable) mk(op Op, s Sort, a, b, c *Term, k uint64, name string) *Term {
	key := termKey{op, s, tid(a), tid(b), tid(c), k, name}
	if t, ok := tt.tab[key]; ok {
		return t
	}
	t := &Term{id: int32(len(tt.all)), op: op, sort: s, a: a, b: b, c: c, k: k, name: name}
	t.h = structHash(t)
	if op == oConst {
		t.cl = 1
	} else if op == oIte && b.cl > 0 && c.cl > 0 {
		t.cl = b.cl + c.cl
		if t.cl > 2000 {
			t.cl = 0
		}
	}
	tt.all = append(tt.all, t)
	tt.tab[key] = t
	return t
}

func mask(w Sort) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w Sort) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (tt *TermTable) bv(v uint64, w Sort) *Term {
	v &= mask(w)
	if v < 1024 && w <= 64 && tt.small[w] != nil {
		if t := tt.small[w][v]; t != nil {
			return t
		}
		t := tt.mk(oConst, w, nil, nil, nil, v, "")
		tt.small[w][v] = t
		return t
	}
	return tt.mk(oConst, w, nil, nil, nil, v, "")
}

func (tt *TermTable) boolC(b bool) *Term {
	if b {
		return tt.tTrue
	}
	return tt.tFalse
}

func (tt *TermTable) f64(f float64) *Term {
	return tt.mk(oConst, sF64, nil, nil, nil, math.Float64bits(f), "")
}
func (tt *TermTable) f32(f float32) *Term {
	return tt.mk(oConst, sF32, nil, nil, nil, uint64(math.Float32bits(f)), "")
}

func (tt *TermTable) variable(name string, s Sort) *Term {
	return tt.mk(oVar, s, nil, nil, nil, 0, name)
}

func (t *Term) isC() bool { return t.op == oConst }
func (t *Term) fval() float64 {
	if t.sort == sF32 {
		return float64(math.Float32frombits(uint32(t.k)))
	}
	return math.Float64frombits(t.k)
}

func (tt *TermTable) not(a *Term) *Term {
	switch a.op {
	case oConst:
		return tt.boolC(a.k == 0)
	case oNot:
		return a.a
	}
	return tt.mk(oNot, sBool, a, nil, nil, 0, "")
}

func (tt *TermTable) and(a, b *Term) *Term {
	if a == tt.tFalse || b == tt.tFalse {
		return tt.tFalse
	}
	if a == tt.tTrue {
		return b
	}
	if b == tt.tTrue || a == b {
		return a
	}
	if (a.op == oNot && a.a == b) || (b.op == oNot && b.a == a) {
		return tt.tFalse
	}
	if before(b, a) {
		a, b = b, a
	}
	return tt.mk(oAnd, sBool, a, b, nil, 0, "")
}

func (tt *TermTable) or(a, b *Term) *Term {
	if a == tt.tTrue || b == tt.tTrue {
		return tt.tTrue
	}
	if a == tt.tFalse {
		return b
	}
	if b == tt.tFalse || a == b {
		return a
	}
	if (a.op == oNot && a.a == b) || (b.op == oNot && b.a == a) {
		return tt.tTrue
	}
	if before(b, a) {
		a, b = b, a
	}
	return tt.mk(oOr, sBool, a, b, nil, 0, "")
}

func (tt *TermTable) ite(c, a, b *Term) *Term {
	if c.isC() {
		if c.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if c.op == oNot {
		return tt.ite(c.a, b, a)
	}
	if a.sort == sBool {
		if a == tt.tTrue {
			return tt.or(c, b)
		}
		if a == tt.tFalse {
			return tt.and(tt.not(c), b)
		}
		if b == tt.tTrue {
			return tt.or(tt.not(c), a)
		}
		if b == tt.tFalse {
			return tt.and(c, a)
		}
	}
	if a.op == oIte && a.a == c {
		a = a.b
	}
	if b.op == oIte && b.a == c {
		b = b.c
	}
	return tt.mk(oIte, a.sort, c, a, b, 0, "")
}

// mapLeaves pushes f through an ite tree with constant leaves.
func (tt *TermTable) mapLeaves(t *Term, memo map[*Term]*Term, f func(*Term) *Term) *Term {
	if t.op != oIte {
		return f(t)
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := tt.ite(t.a, tt.mapLeaves(t.b, memo, f), tt.mapLeaves(t.c, memo, f))
	memo[t] = r
	return r
}

func (tt *TermTable) eq(a, b *Term) *Term {
	if a == b {
		if a.sort == sF32 || a.sort == sF64 {
			panic("eq on float")
		}
		return tt.tTrue
	}
	if a.isC() && b.isC() {
		return tt.boolC(a.k == b.k)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch %d %d", a.sort, b.sort))
	}
	if a.sort == sBool {
		if a == tt.tTrue {
			return b
		}
		if b == tt.tTrue {
			return a
		}
		if a == tt.tFalse {
			return tt.not(b)
		}
		if b == tt.tFalse {
			return tt.not(a)
		}
	}
	if b.isC() {
		a, b = b, a
	}
	if a.sort != sBool && (isSum(a) || isSum(b)) {
		if x, y, ok := tt.linEq(a, b); ok {
			a, b = x, y
			if a == b {
				return tt.tTrue
			}
			if a.isC() && b.isC() {
				return tt.boolC(a.k == b.k)
			}
		}
	}
	if a.isC() {
		switch {
		case b.op == oIte && b.cl > 0:
			return tt.mapLeaves(b, map[*Term]*Term{}, func(l *Term) *Term { return tt.boolC(l.k == a.k) })
		case b.op == oIte && (b.b.isC() || b.c.isC()):
			return tt.ite(b.a, tt.eq(a, b.b), tt.eq(a, b.c))
		case b.op == oZext:
			if a.k > mask(b.a.sort) {
				return tt.tFalse
			}
			return tt.eq(tt.bv(a.k, b.a.sort), b.a)
		case b.op == oSext:
			if uint64(sx(a.k, b.a.sort))&mask(a.sort) != a.k {
				return tt.tFalse
			}
			return tt.eq(tt.bv(a.k, b.a.sort), b.a)
		case b.op == oAdd && b.b.isC():
			return tt.eq(tt.bv(a.k-b.b.k, a.sort), b.a)
		case b.op == oBxor && b.b.isC():
			return tt.eq(tt.bv(a.k^b.b.k, a.sort), b.a)
		case b.op == oConcat:
			lw := b.b.sort
			return tt.and(tt.eq(tt.bv(a.k>>lw, b.a.sort), b.a), tt.eq(tt.bv(a.k, lw), b.b))
		}
	} else {
		if a.op == oZext && b.op == oZext && a.a.sort == b.a.sort {
			return tt.eq(a.a, b.a)
		}
		if a.op == oConcat && b.op == oConcat && a.a.sort == b.a.sort {
			return tt.and(tt.eq(a.a, b.a), tt.eq(a.b, b.b))
		}
	}
	if before(b, a) {
		a, b = b, a
	}
	return tt.mk(oEq, sBool, a, b, nil, 0, "")
}

func foldBin(op Op, x, y uint64, w Sort) (uint64, bool) {
	m := mask(w)
	switch op {
	case oAdd:
		return (x + y) & m, true
	case oSub:
		return (x - y) & m, true
	case oMul:
		return (x * y) & m, true
	case oUdiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case oUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case oSdiv:
		if y == 0 {
			return 0, false
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case oSrem:
		if y == 0 {
			return 0, false
		}
		a, b := sx(x, w), sx(y, w)
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case oBand:
		return x & y, true
	case oBor:
		return x | y, true
	case oBxor:
		return x ^ y, true
	case oShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case oLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case oAshr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m, true
	}
	return 0, false
}

func commut(op Op) bool {
	return op == oAdd || op == oMul || op == oBand || op == oBor || op == oBxor
}

// bin builds a bit-vector operation with result of the same sort.
func (tt *TermTable) bin(op Op, a, b *Term) *Term {
	w := a.sort
	if a.sort != b.sort {
		panic(fmt.Sprintf("bin %d sort mismatch %d %d", op, a.sort, b.sort))
	}
	if a.isC() && b.isC() {
		if v, ok := foldBin(op, a.k, b.k, w); ok {
			return tt.bv(v, w)
		}
	}
	if commut(op) && a.isC() {
		a, b = b, a
	}
	if b.isC() {
		k := b.k
		switch op {
		case oAdd, oSub:
			if k == 0 {
				return a
			}
			if op == oSub {
				return tt.bin(oAdd, a, tt.bv(-k, w))
			}
			if a.op == oAdd && a.b.isC() {
				return tt.bin(oAdd, a.a, tt.bv(a.b.k+k, w))
			}
		case oMul:
			if k == 0 {
				return b
			}
			if k == 1 {
				return a
			}
		case oBand:
			if k == 0 {
				return b
			}
			if k == mask(w) {
				return a
			}
			if a.op == oZext && k&mask(a.a.sort) == mask(a.a.sort) {
				return a
			}
		case oBor, oBxor:
			if k == 0 {
				return a
			}
			if op == oBor && k == mask(w) {
				return b
			}
		case oShl, oLshr:
			if k == 0 {
				return a
			}
			if k >= uint64(w) {
				return tt.bv(0, w)
			}
			if op == oLshr && a.op == oZext && k >= uint64(a.a.sort) {
				return tt.bv(0, w)
			}
		case oAshr:
			if k == 0 {
				return a
			}
		case oUdiv:
			if k == 1 {
				return a
			}
			if k != 0 && k&(k-1) == 0 {
				return tt.bin(oLshr, a, tt.bv(uint64(bits.TrailingZeros64(k)), w))
			}
		case oUrem:
			if k == 1 {
				return tt.bv(0, w)
			}
			if k != 0 && k&(k-1) == 0 {
				return tt.bin(oBand, a, tt.bv(k-1, w))
			}
		}
		if a.op == oIte && a.cl > 0 && a.cl < 700 {
			if !((op == oSdiv || op == oSrem) && k == 0) {
				return tt.mapLeaves(a, map[*Term]*Term{}, func(l *Term) *Term { return tt.bin(op, l, b) })
			}
		}
	} else if a.isC() && a.k == 0 && (op == oShl || op == oLshr || op == oAshr) {
		return a
	}
	if a == b {
		switch op {
		case oSub, oBxor:
			return tt.bv(0, w)
		case oBand, oBor:
			return a
		}
	}
	if op == oAdd || op == oSub {
		if r := tt.linBin(op, a, b); r != nil {
			return r
		}
	}
	if commut(op) && !b.isC() && before(b, a) {
		a, b = b, a
	}
	return tt.mk(op, w, a, b, nil, 0, "")
}

func (tt *TermTable) bnot(a *Term) *Term {
	if a.isC() {
		return tt.bv(^a.k, a.sort)
	}
	if isSum(a) {
		return tt.bin(oSub, tt.bv(mask(a.sort), a.sort), a)
	}
	return tt.mk(oBnot, a.sort, a, nil, nil, 0, "")
}

// cmp builds ult/ule/slt/sle.
func (tt *TermTable) cmp(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic("cmp sort mismatch")
	}
	w := a.sort
	if a == b {
		return tt.boolC(op == oUle || op == oSle)
	}
	if a.isC() && b.isC() {
		switch op {
		case oUlt:
			return tt.boolC(a.k < b.k)
		case oUle:
			return tt.boolC(a.k <= b.k)
		case oSlt:
			return tt.boolC(sx(a.k, w) < sx(b.k, w))
		case oSle:
			return tt.boolC(sx(a.k, w) <= sx(b.k, w))
		}
	}
	if (a.isC() && b.op == oIte && b.cl > 0) || (b.isC() && a.op == oIte && a.cl > 0) {
		if a.isC() {
			return tt.mapLeaves(b, map[*Term]*Term{}, func(l *Term) *Term { return tt.cmp(op, a, l) })
		}
		return tt.mapLeaves(a, map[*Term]*Term{}, func(l *Term) *Term { return tt.cmp(op, l, b) })
	}
	// zero-extended operands: signed compare equals unsigned compare
	if (op == oSlt || op == oSle) && nonneg(a) && nonneg(b) {
		if op == oSlt {
			op = oUlt
		} else {
			op = oUle
		}
	}
	if (op == oSlt || op == oSle) && nonneg(a) && b.isC() && sx(b.k, w) < 0 {
		return tt.tFalse
	}
	if (op == oSlt || op == oSle) && nonneg(b) && a.isC() && sx(a.k, w) < 0 {
		return tt.tTrue
	}
	if op == oUlt || op == oUle {
		if b.isC() {
			if op == oUlt && b.k == 0 {
				return tt.tFalse
			}
			if op == oUle && b.k == mask(w) {
				return tt.tTrue
			}
			if a.op == oZext {
				m := mask(a.a.sort)
				if b.k > m || (op == oUle && b.k == m) {
					return tt.tTrue
				}
				return tt.cmp(op, a.a, tt.bv(b.k, a.a.sort))
			}
		}
		if a.isC() {
			if op == oUle && a.k == 0 {
				return tt.tTrue
			}
			if op == oUlt && a.k == mask(w) {
				return tt.tFalse
			}
			if b.op == oZext {
				m := mask(b.a.sort)
				if a.k > m || (op == oUlt && a.k == m) {
					return tt.tFalse
				}
				return tt.cmp(op, tt.bv(a.k, b.a.sort), b.a)
			}
		}
		if a.op == oZext && b.op == oZext && a.a.sort == b.a.sort {
			return tt.cmp(op, a.a, b.a)
		}
	}
	return tt.mk(op, sBool, a, b, nil, 0, "")
}

func nonneg(t *Term) bool {
	if t.isC() {
		return sx(t.k, t.sort) >= 0
	}
	return t.op == oZext
}

func (tt *TermTable) zext(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.isC() {
		return tt.bv(a.k, w)
	}
	if a.op == oZext {
		return tt.zext(a.a, w)
	}
	if a.op == oIte && a.cl > 0 {
		return tt.mapLeaves(a, map[*Term]*Term{}, func(l *Term) *Term { return tt.zext(l, w) })
	}
	return tt.mk(oZext, w, a, nil, nil, 0, "")
}

func (tt *TermTable) sext(a *Term, w Sort) *Term {
	if a.sort == w {
		return a
	}
	if a.isC() {
		return tt.bv(uint64(sx(a.k, a.sort)), w)
	}
	if a.op == oZext {
		return tt.zext(a.a, w)
	}
	if a.op == oSext {
		return tt.sext(a.a, w)
	}
	if a.op == oIte && a.cl > 0 {
		return tt.mapLeaves(a, map[*Term]*Term{}, func(l *Term) *Term { return tt.sext(l, w) })
	}
	return tt.mk(oSext, w, a, nil, nil, 0, "")
}

func (tt *TermTable) extract(a *Term, hi, lo int) *Term {
	w := Sort(hi - lo + 1)
	if w == a.sort {
		return a
	}
	if a.isC() {
		return tt.bv(a.k>>uint(lo), w)
	}
	switch a.op {
	case oZext, oSext:
		if hi < int(a.a.sort) {
			return tt.extract(a.a, hi, lo)
		}
		if a.op == oZext && lo >= int(a.a.sort) {
			return tt.bv(0, w)
		}
		if a.op == oZext && lo == 0 {
			return tt.zext(a.a, w)
		}
		if a.op == oSext && lo == 0 {
			return tt.sext(a.a, w)
		}
	case oExtract:
		l0 := int(a.k & 0xff)
		return tt.extract(a.a, hi+l0, lo+l0)
	case oConcat:
		lw := int(a.b.sort)
		if hi < lw {
			return tt.extract(a.b, hi, lo)
		}
		if lo >= lw {
			return tt.extract(a.a, hi-lw, lo-lw)
		}
	case oIte:
		if a.cl > 0 {
			return tt.mapLeaves(a, map[*Term]*Term{}, func(l *Term) *Term { return tt.extract(l, hi, lo) })
		}
	case oBor, oBand, oBxor:
		return tt.bin(a.op, tt.extract(a.a, hi, lo), tt.extract(a.b, hi, lo))
	case oAdd, oSub, oMul:
		if lo == 0 {
			return tt.bin(a.op, tt.extract(a.a, hi, 0), tt.extract(a.b, hi, 0))
		}
	case oShl:
		if a.b.isC() {
			s := int(a.b.k)
			if lo >= s {
				return tt.extract(a.a, hi-s, lo-s)
			}
			if hi < s {
				return tt.bv(0, w)
			}
		}
	case oLshr:
		if a.b.isC() {
			s := int(a.b.k)
			if hi+s < int(a.sort) {
				return tt.extract(a.a, hi+s, lo+s)
			}
			if lo+s >= int(a.sort) {
				return tt.bv(0, w)
			}
		}
	}
	return tt.mk(oExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo), "")
}

func (tt *TermTable) concat(a, b *Term) *Term {
	w := a.sort + b.sort
	if a.isC() && b.isC() {
		return tt.bv(a.k<<b.sort|b.k, w)
	}
	if a.isC() && a.k == 0 {
		return tt.zext(b, w)
	}
	return tt.mk(oConcat, w, a, b, nil, 0, "")
}

// conv converts an integer term to width w (truncating or extending).
func (tt *TermTable) conv(a *Term, w Sort, signed bool) *Term {
	switch {
	case a.sort == w:
		return a
	case a.sort > w:
		return tt.extract(a, int(w)-1, 0)
	case signed:
		return tt.sext(a, w)
	default:
		return tt.zext(a, w)
	}
}

// ---- floats ----

func (tt *TermTable) fromBits(a *Term) *Term {
	s := sF64
	if a.sort == 32 {
		s = sF32
	}
	if a.isC() {
		return tt.mk(oConst, s, nil, nil, nil, a.k, "")
	}
	if a.op == oToBits {
		return a.a
	}
	return tt.mk(oFromBits, s, a, nil, nil, 0, "")
}

func (tt *TermTable) toBits(a *Term) *Term {
	w := Sort(64)
	if a.sort == sF32 {
		w = 32
	}
	if a.isC() {
		return tt.bv(a.k, w)
	}
	if a.op == oFromBits {
		return a.a
	}
	if a.op == oIte {
		return tt.ite(a.a, tt.toBits(a.b), tt.toBits(a.c))
	}
	return tt.mk(oToBits, w, a, nil, nil, 0, "")
}

func (tt *TermTable) fconst(f float64, s Sort) *Term {
	if s == sF32 {
		return tt.f32(float32(f))
	}
	return tt.f64(f)
}

func (tt *TermTable) fbin(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		if a.sort == sF32 {
			x, y := math.Float32frombits(uint32(a.k)), math.Float32frombits(uint32(b.k))
			switch op {
			case oFadd:
				return tt.f32(x + y)
			case oFsub:
				return tt.f32(x - y)
			case oFmul:
				return tt.f32(x * y)
			case oFdiv:
				return tt.f32(x / y)
			}
		} else {
			x, y := a.fval(), b.fval()
			switch op {
			case oFadd:
				return tt.f64(x + y)
			case oFsub:
				return tt.f64(x - y)
			case oFmul:
				return tt.f64(x * y)
			case oFdiv:
				return tt.f64(x / y)
			case oFrem:
				return tt.f64(math.Mod(x, y))
			}
		}
	}
	if (op == oFadd || op == oFmul) && before(b, a) {
		a, b = b, a
	}
	return tt.mk(op, a.sort, a, b, nil, 0, "")
}

func (tt *TermTable) fcmp(op Op, a, b *Term) *Term {
	if a.isC() && b.isC() {
		x, y := a.fval(), b.fval()
		switch op {
		case oFeq:
			return tt.boolC(x == y)
		case oFlt:
			return tt.boolC(x < y)
		case oFle:
			return tt.boolC(x <= y)
		}
	}
	if op == oFeq && before(b, a) {
		a, b = b, a
	}
	return tt.mk(op, sBool, a, b, nil, 0, "")
}

func (tt *TermTable) funary(op Op, a *Term, s Sort, k uint64) *Term {
	if a.isC() {
		switch op {
		case oFneg:
			return tt.fconst(-a.fval(), s)
		case oFabs:
			return tt.fconst(math.Abs(a.fval()), s)
		case oFsqrt:
			if s == sF64 {
				return tt.fconst(math.Sqrt(a.fval()), s)
			}
		case oFisNaN:
			return tt.boolC(math.IsNaN(a.fval()))
		case oFcast:
			return tt.fconst(a.fval(), s)
		case oUtoF:
			if s == sF32 {
				return tt.f32(float32(a.k))
			}
			return tt.f64(float64(a.k))
		case oStoF:
			if s == sF32 {
				return tt.f32(float32(sx(a.k, a.sort)))
			}
			return tt.f64(float64(sx(a.k, a.sort)))
		case oFtoS:
			return tt.bv(uint64(int64(a.fval())), s)
		case oFtoU:
			return tt.bv(uint64(a.fval()), s)
		case oFrnd:
			switch k {
			case 1:
				return tt.fconst(math.Trunc(a.fval()), s)
			case 2:
				return tt.fconst(math.Ceil(a.fval()), s)
			case 3:
				return tt.fconst(math.Floor(a.fval()), s)
			}
		}
	}
	if op == oFneg && a.op == oFneg {
		return a.a
	}
	// widening of integers before conversion is exact
	if (op == oUtoF) && a.op == oZext {
		return tt.funary(oUtoF, a.a, s, k)
	}
	if (op == oStoF) && a.op == oZext {
		return tt.funary(oUtoF, a.a, s, k)
	}
	if (op == oStoF) && a.op == oSext {
		return tt.funary(oStoF, a.a, s, k)
	}
	rs := s
	if op == oFisNaN {
		rs = sBool
	}
	return tt.mk(op, rs, a, nil, nil, k, "")
}

// ---- variables / printing ----

func (t *Term) fv() []int32 {
	if t.vok {
		return t.vars
	}
	var r []int32
	if t.op == oVar {
		r = []int32{t.id}
	} else {
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				r = mergeVars(r, x.fv())
			}
		}
	}
	t.vars, t.vok = r, true
	return r
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	if len(a) == len(b) && &a[0] == &b[0] {
		return a
	}
	// subset tests keep sharing
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	if len(out) == len(a) {
		return a
	}
	if len(out) == len(b) {
		return b
	}
	return out
}

var opNames = map[Op]string{
	oNot: "not", oAnd: "and", oOr: "or", oEq: "=", oIte: "ite",
	oAdd: "bvadd", oSub: "bvsub", oMul: "bvmul", oUdiv: "bvudiv", oUrem: "bvurem", oSdiv: "bvsdiv", oSrem: "bvsrem",
	oBand: "bvand", oBor: "bvor", oBxor: "bvxor", oBnot: "bvnot", oShl: "bvshl", oLshr: "bvlshr", oAshr: "bvashr",
	oUlt: "bvult", oUle: "bvule", oSlt: "bvslt", oSle: "bvsle", oConcat: "concat",
	oFadd: "fp.add RNE", oFsub: "fp.sub RNE", oFmul: "fp.mul RNE", oFdiv: "fp.div RNE", oFneg: "fp.neg",
	oFeq: "fp.eq", oFlt: "fp.lt", oFle: "fp.leq", oFisNaN: "fp.isNaN", oFsqrt: "fp.sqrt RNE", oFabs: "fp.abs", oFrem: "fp.rem",
}

// ref returns how a term is referenced inside another one.
func (t *Term) ref() string {
	switch t.op {
	case oConst:
		switch t.sort {
		case sBool:
			if t.k != 0 {
				return "true"
			}
			return "false"
		case sF32:
			return fmt.Sprintf("((_ to_fp 8 24) (_ bv%d 32))", t.k)
		case sF64:
			return fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", t.k)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.sort)
	case oVar:
		// the sort is part of the name: paths may use one name for values of several sorts
		return fmt.Sprintf("|%s:%d|", t.name, t.sort)
	}
	return fmt.Sprintf("t%d", t.id)
}

func fpDims(s Sort) string {
	if s == sF32 {
		return "8 24"
	}
	return "11 53"
}

// def returns the defining expression of a compound term.
func (t *Term) def() string {
	var b strings.Builder
	switch t.op {
	case oZext:
		fmt.Fprintf(&b, "((_ zero_extend %d) %s)", t.sort-t.a.sort, t.a.ref())
	case oSext:
		fmt.Fprintf(&b, "((_ sign_extend %d) %s)", t.sort-t.a.sort, t.a.ref())
	case oExtract:
		fmt.Fprintf(&b, "((_ extract %d %d) %s)", t.k>>8, t.k&0xff, t.a.ref())
	case oFromBits:
		fmt.Fprintf(&b, "((_ to_fp %s) %s)", fpDims(t.sort), t.a.ref())
	case oToBits:
		fmt.Fprintf(&b, "(fp.to_ieee_bv %s)", t.a.ref())
	case oFcast, oStoF:
		fmt.Fprintf(&b, "((_ to_fp %s) RNE %s)", fpDims(t.sort), t.a.ref())
	case oUtoF:
		fmt.Fprintf(&b, "((_ to_fp_unsigned %s) RNE %s)", fpDims(t.sort), t.a.ref())
	case oFtoS:
		fmt.Fprintf(&b, "((_ fp.to_sbv %d) RTZ %s)", t.sort, t.a.ref())
	case oFtoU:
		fmt.Fprintf(&b, "((_ fp.to_ubv %d) RTZ %s)", t.sort, t.a.ref())
	case oFrnd:
		fmt.Fprintf(&b, "(fp.roundToIntegral %s %s)", []string{"RNE", "RTZ", "RTP", "RTN", "RNA"}[t.k], t.a.ref())
	default:
		b.WriteByte('(')
		b.WriteString(opNames[t.op])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				b.WriteByte(' ')
				b.WriteString(x.ref())
			}
		}
		b.WriteByte(')')
	}
	return b.String()
}

// eval evaluates a term under a model (variable id -> value); missing variables are 0.
func (tt *TermTable) eval(t *Term, m map[int32]uint64, memo map[int32]*Term) *Term {
	if t.isC() {
		return t
	}
	if r, ok := memo[t.id]; ok {
		return r
	}
	var r *Term
	if t.op == oVar {
		v := m[t.id]
		switch t.sort {
		case sBool:
			r = tt.boolC(v != 0)
		case sF32, sF64:
			r = tt.mk(oConst, t.sort, nil, nil, nil, v, "")
		default:
			r = tt.bv(v, t.sort)
		}
	} else {
		var a, b, c *Term
		a = tt.eval(t.a, m, memo)
		if t.op == oIte {
			if a.k != 0 {
				r = tt.eval(t.b, m, memo)
			} else {
				r = tt.eval(t.c, m, memo)
			}
			memo[t.id] = r
			return r
		}
		if t.b != nil {
			b = tt.eval(t.b, m, memo)
		}
		if t.c != nil {
			c = tt.eval(t.c, m, memo)
		}
		_ = c
		switch t.op {
		case oNot:
			r = tt.not(a)
		case oAnd:
			r = tt.and(a, b)
		case oOr:
			r = tt.or(a, b)
		case oEq:
			r = tt.eq(a, b)
		case oAdd, oSub, oMul, oUdiv, oUrem, oSdiv, oSrem, oBand, oBor, oBxor, oShl, oLshr, oAshr:
			r = tt.bin(t.op, a, b)
		case oBnot:
			r = tt.bnot(a)
		case oUlt, oUle, oSlt, oSle:
			r = tt.cmp(t.op, a, b)
		case oZext:
			r = tt.zext(a, t.sort)
		case oSext:
			r = tt.sext(a, t.sort)
		case oExtract:
			r = tt.extract(a, int(t.k>>8), int(t.k&0xff))
		case oConcat:
			r = tt.concat(a, b)
		case oFromBits:
			r = tt.fromBits(a)
		case oToBits:
			r = tt.toBits(a)
		case oFadd, oFsub, oFmul, oFdiv, oFrem:
			r = tt.fbin(t.op, a, b)
		case oFeq, oFlt, oFle:
			r = tt.fcmp(t.op, a, b)
		default:
			r = tt.funary(t.op, a, t.sort, t.k)
		}
	}
	memo[t.id] = r
	return r
}
