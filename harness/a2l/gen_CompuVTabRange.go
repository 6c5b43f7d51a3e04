// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_CompuVTabRange = 4

// CompuVTabRange: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_CompuVTabRange(b *verifB, m int) CompuVTabRange {
	var w CompuVTabRange
	vary := m == 0
	_ = vary
	w.Name = b.s("Name")
	w.NameSet = true
	w.LongIdentifier = b.s("LongIdentifier")
	w.LongIdentifierSet = true
	n := b.listLen(vary)
	if n == 0 {
		n = 2
	}
	w.NumberValueTriples, w.NumberValueTriplesSet = uint16(n), true
	b.fixed16(n)
	for i := 0; i < n; i++ {
		w.InValMin = append(w.InValMin, b.f("InValMin"))
		w.InValMax = append(w.InValMax, b.f("InValMax"))
		w.OutVal = append(w.OutVal, b.s("OutVal"))
	}
	w.InValMinSet = true
	w.InValMaxSet = true
	w.OutValSet = true
	k := m - 1
	all, rev := m == verifModes_CompuVTabRange-2, m == verifModes_CompuVTabRange-1
	pair, first, second, nested := m >= verifModes_CompuVTabRange, -1, -1, m-verifModes_CompuVTabRange-1
	if pair && nested < 0 {
		first, second = (m-verifModes_CompuVTabRange)/1, (m-verifModes_CompuVTabRange)%1
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 1; i++ {
		o := i
		if rev {
			o = 0 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DEFAULT_VALUE")
				w.DefaultValue = verifMk_DefaultValue(b, sub)
			}
		}
	}
	b.t("/end COMPU_VTAB_RANGE")
	return w
}
func verifEq_CompuVTabRange(a, w CompuVTabRange) bool {
	r := true
	r = verifAnd(r, a.Name == w.Name)
	r = verifAnd(r, a.NameSet == w.NameSet)
	r = verifAnd(r, a.LongIdentifier == w.LongIdentifier)
	r = verifAnd(r, a.LongIdentifierSet == w.LongIdentifierSet)
	r = verifAnd(r, a.NumberValueTriples == w.NumberValueTriples)
	r = verifAnd(r, a.NumberValueTriplesSet == w.NumberValueTriplesSet)
	r = verifAnd(r, len(a.InValMin) == len(w.InValMin))
	for i := 0; i < len(a.InValMin) && i < len(w.InValMin); i++ {
		r = verifAnd(r, a.InValMin[i] == w.InValMin[i])
	}
	r = verifAnd(r, a.InValMinSet == w.InValMinSet)
	r = verifAnd(r, len(a.InValMax) == len(w.InValMax))
	for i := 0; i < len(a.InValMax) && i < len(w.InValMax); i++ {
		r = verifAnd(r, a.InValMax[i] == w.InValMax[i])
	}
	r = verifAnd(r, a.InValMaxSet == w.InValMaxSet)
	r = verifAnd(r, len(a.OutVal) == len(w.OutVal))
	for i := 0; i < len(a.OutVal) && i < len(w.OutVal); i++ {
		r = verifAnd(r, a.OutVal[i] == w.OutVal[i])
	}
	r = verifAnd(r, a.OutValSet == w.OutValSet)
	r = verifAnd(r, verifEq_DefaultValue(a.DefaultValue, w.DefaultValue))
	return r
}
