// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_CompuVTab = 4

// CompuVTab: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_CompuVTab(b *verifB, m int) CompuVTab {
	var w CompuVTab
	vary := m == 0
	_ = vary
	w.Name = b.s("Name")
	w.NameSet = true
	w.LongIdentifier = b.s("LongIdentifier")
	w.LongIdentifierSet = true
	w.ConversionType = conversionTypeEnum(b.e("ConversionType", verifE_ConversionTypeEnum, vary))
	w.ConversionTypeSet = true
	n := b.listLen(vary)
	if n == 0 {
		n = 2
	}
	w.NumberValuePairs, w.NumberValuePairsSet = uint16(n), true
	b.fixed16(n)
	for i := 0; i < n; i++ {
		w.InVal = append(w.InVal, b.f("InVal"))
		w.OutVal = append(w.OutVal, b.s("OutVal"))
	}
	w.InValSet = true
	w.OutValSet = true
	k := m - 1
	all, rev := m == verifModes_CompuVTab-2, m == verifModes_CompuVTab-1
	pair, first, second, nested := m >= verifModes_CompuVTab, -1, -1, m-verifModes_CompuVTab-1
	if pair && nested < 0 {
		first, second = (m-verifModes_CompuVTab)/1, (m-verifModes_CompuVTab)%1
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 1; i++ {
		o := i
		if rev {
			o = 0 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DEFAULT_VALUE")
				w.DefaultValue = verifMk_DefaultValue(b, sub)
			}
		}
	}
	b.t("/end COMPU_VTAB")
	return w
}
func verifEq_CompuVTab(a, w CompuVTab) bool {
	r := true
	r = verifAnd(r, a.Name == w.Name)
	r = verifAnd(r, a.NameSet == w.NameSet)
	r = verifAnd(r, a.LongIdentifier == w.LongIdentifier)
	r = verifAnd(r, a.LongIdentifierSet == w.LongIdentifierSet)
	r = verifAnd(r, a.ConversionType == w.ConversionType)
	r = verifAnd(r, a.ConversionTypeSet == w.ConversionTypeSet)
	r = verifAnd(r, a.NumberValuePairs == w.NumberValuePairs)
	r = verifAnd(r, a.NumberValuePairsSet == w.NumberValuePairsSet)
	r = verifAnd(r, len(a.InVal) == len(w.InVal))
	for i := 0; i < len(a.InVal) && i < len(w.InVal); i++ {
		r = verifAnd(r, a.InVal[i] == w.InVal[i])
	}
	r = verifAnd(r, a.InValSet == w.InValSet)
	r = verifAnd(r, len(a.OutVal) == len(w.OutVal))
	for i := 0; i < len(a.OutVal) && i < len(w.OutVal); i++ {
		r = verifAnd(r, a.OutVal[i] == w.OutVal[i])
	}
	r = verifAnd(r, a.OutValSet == w.OutValSet)
	r = verifAnd(r, verifEq_DefaultValue(a.DefaultValue, w.DefaultValue))
	return r
}
