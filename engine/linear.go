package main

// Linear normal form of bit-vector sums: every term built from +, - and constant factors is
// kept as pos - neg + k with the atoms in the order of their ids, so that equal sums are the
// same term whatever order the program adds them in. All arithmetic is modulo 2^w.

type linAtom struct {
	t *Term
	c uint64
}

type linForm struct {
	atoms []linAtom
	k     uint64
}

const linMax = 700

func (tt *TermTable) lin(t *Term) *linForm {
	if t.isC() {
		return &linForm{k: t.k}
	}
	if f, ok := tt.linMemo[t]; ok {
		return f
	}
	var f *linForm
	switch {
	case t.op == oAdd:
		f = tt.linAdd(tt.lin(t.a), tt.lin(t.b), 1, t.sort)
	case t.op == oSub:
		f = tt.linAdd(tt.lin(t.a), tt.lin(t.b), mask(t.sort), t.sort)
	case t.op == oMul && t.b.isC():
		f = tt.linAdd(&linForm{}, tt.lin(t.a), t.b.k, t.sort)
	default:
		f = &linForm{atoms: []linAtom{{t, 1}}}
	}
	tt.linMemo[t] = f
	return f
}

// linAdd returns a + c*b.
func (tt *TermTable) linAdd(a, b *linForm, c uint64, w Sort) *linForm {
	m := mask(w)
	r := &linForm{k: (a.k + c*b.k) & m}
	i, j := 0, 0
	for i < len(a.atoms) || j < len(b.atoms) {
		switch {
		case j == len(b.atoms) || i < len(a.atoms) && before(a.atoms[i].t, b.atoms[j].t):
			r.atoms = append(r.atoms, a.atoms[i])
			i++
		case i == len(a.atoms) || before(b.atoms[j].t, a.atoms[i].t):
			if v := c * b.atoms[j].c & m; v != 0 {
				r.atoms = append(r.atoms, linAtom{b.atoms[j].t, v})
			}
			j++
		default:
			if v := (a.atoms[i].c + c*b.atoms[j].c) & m; v != 0 {
				r.atoms = append(r.atoms, linAtom{a.atoms[i].t, v})
			}
			i++
			j++
		}
	}
	return r
}

// linParts builds the positive and the negative part of a form; nil for an empty part.
func (tt *TermTable) linParts(f *linForm, w Sort) (pos, neg *Term) {
	m := mask(w)
	add := func(s, x *Term, c uint64) *Term {
		if c != 1 {
			x = tt.mk(oMul, w, x, tt.bv(c, w), nil, 0, "")
		}
		if s == nil {
			return x
		}
		return tt.mk(oAdd, w, s, x, nil, 0, "")
	}
	for _, a := range f.atoms {
		if n := -a.c & m; n < a.c && w > 1 {
			neg = add(neg, a.t, n)
		} else {
			pos = add(pos, a.t, a.c)
		}
	}
	return pos, neg
}

func (tt *TermTable) linTerm(f *linForm, w Sort) *Term {
	pos, neg := tt.linParts(f, w)
	k := tt.bv(f.k, w)
	switch {
	case pos == nil && neg == nil:
		return k
	case pos == nil:
		return tt.mk(oSub, w, k, neg, nil, 0, "")
	case neg != nil:
		pos = tt.mk(oSub, w, pos, neg, nil, 0, "")
	}
	if f.k == 0 {
		return pos
	}
	return tt.mk(oAdd, w, pos, k, nil, 0, "")
}

// linBin builds a+b or a-b in normal form.
func (tt *TermTable) linBin(op Op, a, b *Term) *Term {
	c := uint64(1)
	if op == oSub {
		c = mask(a.sort)
	}
	fa, fb := tt.lin(a), tt.lin(b)
	if len(fa.atoms)+len(fb.atoms) > linMax {
		return nil
	}
	f := tt.linAdd(fa, fb, c, a.sort)
	t := tt.linTerm(f, a.sort)
	if _, ok := tt.linMemo[t]; !ok && !t.isC() {
		tt.linMemo[t] = f
	}
	return t
}

func isSum(t *Term) bool { return t.op == oAdd || t.op == oSub }

// linEq normalises an equation with a sum on one side; ok is false if nothing changes.
func (tt *TermTable) linEq(a, b *Term) (*Term, *Term, bool) {
	fa, fb := tt.lin(a), tt.lin(b)
	if len(fa.atoms)+len(fb.atoms) > linMax {
		return a, b, false
	}
	w := a.sort
	f := tt.linAdd(fa, fb, mask(w), w)
	pos, neg := tt.linParts(f, w)
	k := tt.bv(-f.k, w)
	switch {
	case pos == nil && neg == nil:
		return tt.bv(f.k, w), tt.bv(0, w), true
	case neg == nil:
		return k, pos, true
	case pos == nil:
		return tt.bv(f.k, w), neg, true
	}
	// pos - neg = -k
	if f.k == 0 {
		return pos, neg, true
	}
	if f.k <= mask(w)/2 {
		return tt.mk(oAdd, w, pos, tt.bv(f.k, w), nil, 0, ""), neg, true
	}
	return pos, tt.mk(oAdd, w, neg, k, nil, 0, ""), true
}
