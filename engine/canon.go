package main

import (
	"encoding/binary"
	"hash/fnv"
)

// canon replaces a term over few input bits by an equal but simpler one. The term's value
// table over all leaf values is computed; a bit of the result that is constant or always
// equals one leaf bit is replaced by it. Leaves are treated as independent, so every
// replacement holds for all values.

const canonBits = 11

func (tt *TermTable) canon(t *Term) *Term {
	if t == nil || t.isC() || t.op == oVar || t.sort > 64 {
		return t
	}
	if r, ok := tt.canonMemo[t]; ok {
		return r
	}
	r := tt.canon1(t)
	tt.canonMemo[t] = r
	if r != t {
		tt.canonMemo[r] = r
	}
	return r
}

func (tt *TermTable) canon1(t *Term) *Term {
	var fallback *Term
	lastN := -1
	for depth := 0; depth < 3; depth++ {
		nodes, leaves, ok := collectCanon(t, depth)
		if !ok || len(leaves) == 0 || (len(leaves) == 1 && leaves[0] == t) || len(nodes) == lastN {
			continue
		}
		lastN = len(nodes)
		r, full := tt.canonTable(t, nodes, leaves, nil)
		if full {
			return r
		}
		if fallback == nil {
			fallback = r
		}
	}
	if fallback != nil {
		return fallback
	}
	return t
}

func sortW(s Sort) int {
	if s == sBool {
		return 1
	}
	return int(s)
}

func collectCanon(t *Term, depth int) (nodes, leaves []*Term, ok bool) {
	seen := map[*Term]bool{}
	bits := 0
	var rec func(x *Term) bool
	leaf := func(x *Term) bool {
		if x.sort > 64 {
			return false
		}
		bits += sortW(x.sort)
		if bits > canonBits {
			return false
		}
		leaves = append(leaves, x)
		return true
	}
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return true
		}
		seen[x] = true
		if len(seen) > 4000 || x.sort > 64 {
			return false
		}
		if x.isC() {
			nodes = append(nodes, x)
			return true
		}
		switch x.op {
		case oVar:
			return leaf(x)
		case oExtract:
			if x.a.op == oVar && x.a.sort > 8 || x.a.sort > 8 && isArith(x.a) {
				return leaf(x)
			}
		case oAdd, oSub:
			if depth == 0 || depth == 1 && !x.a.isC() && !x.b.isC() {
				return leaf(x)
			}
		case oMul, oUdiv, oUrem, oSdiv, oSrem, oShl, oLshr, oAshr:
			if !x.b.isC() && !x.a.isC() {
				return leaf(x)
			}
		case oIte, oNot, oAnd, oOr, oEq, oZext, oSext, oConcat, oBand, oBor, oBxor, oBnot, oUlt, oUle, oSlt, oSle:
		default:
			return leaf(x)
		}
		if !rec(x.a) || !rec(x.b) || !rec(x.c) {
			return false
		}
		nodes = append(nodes, x)
		return true
	}
	ok = rec(t)
	return
}

func isArith(x *Term) bool {
	switch x.op {
	case oAdd, oSub, oMul, oUdiv, oUrem, oSdiv, oSrem:
		return true
	}
	return false
}

// canonCare simplifies t for the case that care holds.
func (tt *TermTable) canonCare(t, care *Term) *Term {
	if t.isC() || t.op == oVar || t.sort > 64 || care.isC() {
		return t
	}
	joint := tt.mk(oIte, t.sort, care, t, tt.bv(0, t.sort), 0, "")
	for depth := 0; depth < 3; depth++ {
		nodes, leaves, ok := collectCanon(joint, depth)
		if !ok || len(leaves) == 0 {
			continue
		}
		if r, full := tt.canonTable(t, nodes, leaves, care); full {
			return r
		}
	}
	return t
}

func (tt *TermTable) canonTable(t *Term, nodes, leaves []*Term, care *Term) (*Term, bool) {
	total := 0
	for _, l := range leaves {
		total += sortW(l.sort)
	}
	idx := map[*Term]int{}
	for i, l := range leaves {
		idx[l] = i
	}
	n0 := len(leaves)
	for i, x := range nodes {
		idx[x] = n0 + i
	}
	type nd struct {
		t       *Term
		a, b, c int
	}
	prog := make([]nd, len(nodes))
	get := func(x *Term) int {
		if x == nil {
			return -1
		}
		return idx[x]
	}
	for i, x := range nodes {
		prog[i] = nd{x, get(x.a), get(x.b), get(x.c)}
	}
	vals := make([]uint64, n0+len(nodes))
	N := 1 << total
	tab := make([]uint64, N)
	w := sortW(t.sort)
	res := idx[t]
	var skip []bool
	if care != nil {
		skip = make([]bool, N)
	}
	for m := 0; m < N; m++ {
		s := m
		for i, l := range leaves {
			lw := sortW(l.sort)
			vals[i] = uint64(s) & (1<<lw - 1)
			s >>= lw
		}
		for i := range prog {
			p := &prog[i]
			x := p.t
			var a, b uint64
			if p.a >= 0 {
				a = vals[p.a]
			}
			if p.b >= 0 {
				b = vals[p.b]
			}
			var v uint64
			switch x.op {
			case oConst:
				v = x.k
			case oIte:
				if a != 0 {
					v = b
				} else {
					v = vals[p.c]
				}
			case oNot:
				v = 1 - a
			case oAnd:
				v = a & b
			case oOr:
				v = a | b
			case oEq:
				if a == b {
					v = 1
				}
			case oZext:
				v = a
			case oSext:
				v = uint64(sx(a, x.a.sort)) & mask(x.sort)
			case oExtract:
				hi, lo := x.k>>8, x.k&0xff
				v = (a >> lo) & mask(Sort(hi-lo+1))
			case oConcat:
				v = a<<uint(x.b.sort) | b
			case oBnot:
				v = ^a & mask(x.sort)
			case oUlt:
				if a < b {
					v = 1
				}
			case oUle:
				if a <= b {
					v = 1
				}
			case oSlt:
				if sx(a, x.a.sort) < sx(b, x.a.sort) {
					v = 1
				}
			case oSle:
				if sx(a, x.a.sort) <= sx(b, x.a.sort) {
					v = 1
				}
			default:
				r, ok := foldBin(x.op, a, b, x.sort)
				if !ok {
					return nil, false
				}
				v = r
			}
			vals[n0+i] = v
		}
		tab[m] = vals[res]
		if care != nil {
			skip[m] = vals[idx[care]] == 0
		}
	}
	// bits of the result as constants or leaf bits
	type src struct {
		leaf, bit int
		k         uint64
		inv       bool
	}
	bitsOf := make([]src, w)
	okAll := true
	for j := 0; j < w && okAll; j++ {
		c0, c1 := true, true
		for m := 0; m < N; m++ {
			if care != nil && skip[m] {
				continue
			}
			if tab[m]>>uint(j)&1 == 0 {
				c1 = false
			} else {
				c0 = false
			}
			if !c0 && !c1 {
				break
			}
		}
		if c0 || c1 {
			bitsOf[j] = src{leaf: -1}
			if c1 {
				bitsOf[j].k = 1
			}
			continue
		}
		found := false
		pos := 0
		for li, l := range leaves {
			lw := sortW(l.sort)
			for q := 0; q < lw; q++ {
				same := true
				for m := 0; m < N; m++ {
					if care != nil && skip[m] {
						continue
					}
					if tab[m]>>uint(j)&1 != uint64(m)>>uint(pos+q)&1 {
						same = false
						break
					}
				}
				if same {
					bitsOf[j] = src{leaf: li, bit: q}
					found = true
					break
				}
			}
			pos += lw
			if found {
				break
			}
		}
		okAll = okAll && found
	}
	if okAll {
		if t.sort == sBool {
			s := bitsOf[0]
			if s.leaf < 0 {
				return tt.boolC(s.k != 0), true
			}
			l := leaves[s.leaf]
			if l.sort == sBool {
				return l, true
			}
			return tt.eq(tt.extract(l, s.bit, s.bit), tt.bv(1, 1)), true
		}
		// group consecutive bits, most significant first
		var r *Term
		for j := w - 1; j >= 0; {
			s := bitsOf[j]
			k := j
			var piece *Term
			if s.leaf < 0 {
				for k-1 >= 0 && bitsOf[k-1].leaf < 0 {
					k--
				}
				var v uint64
				for q := j; q >= k; q-- {
					v = v<<1 | bitsOf[q].k
				}
				piece = tt.bv(v, Sort(j-k+1))
			} else {
				for k-1 >= 0 && bitsOf[k-1].leaf == s.leaf && bitsOf[k-1].bit == bitsOf[k].bit-1 {
					k--
				}
				l := leaves[s.leaf]
				if l.sort == sBool {
					piece = tt.ite(l, tt.bv(1, 1), tt.bv(0, 1))
				} else {
					piece = tt.extract(l, s.bit, bitsOf[k].bit)
				}
			}
			if r == nil {
				r = piece
			} else {
				r = tt.concat(r, piece)
			}
			j = k - 1
		}
		return r, true
	}
	if care != nil {
		return t, false
	}
	// share equal tables
	h := fnv.New128a()
	var buf [8]byte
	for _, l := range leaves {
		binary.LittleEndian.PutUint64(buf[:], uint64(l.id))
		h.Write(buf[:])
	}
	for _, v := range tab {
		binary.LittleEndian.PutUint64(buf[:], v)
		h.Write(buf[:])
	}
	h.Write([]byte{byte(w)})
	key := string(h.Sum(nil))
	if o, ok := tt.canonTab[key]; ok {
		return o, false
	}
	tt.canonTab[key] = t
	return t, false
}
