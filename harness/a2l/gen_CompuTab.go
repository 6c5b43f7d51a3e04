// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_CompuTab = 5
const verifPairs_CompuTab = 4

// CompuTab: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_CompuTab(b *verifB, m int) CompuTab {
	var w CompuTab
	vary := m == 0
	_ = vary
	w.Name = b.s("Name")
	w.NameSet = true
	w.longIdentifier = b.s("longIdentifier")
	w.longIdentifierSet = true
	w.ConversionType = conversionTypeEnum(b.e("ConversionType", verifE_ConversionTypeEnum, vary))
	w.ConversionTypeSet = true
	n := b.listLen(vary)
	if n == 0 {
		n = 2
	}
	w.NumberValuePairs, w.NumberValuePairsSet = uint16(n), true
	b.fixed16(n)
	for i := 0; i < n; i++ {
		w.InVal = append(w.InVal, b.f("InVal"))
		w.OutVal = append(w.OutVal, b.f("OutVal"))
	}
	w.InValSet = true
	w.OutValSet = true
	k := m - 1
	all, rev := m == verifModes_CompuTab-2, m == verifModes_CompuTab-1
	pair, first, second, nested := m >= verifModes_CompuTab, -1, -1, m-verifModes_CompuTab-4
	if pair && nested < 0 {
		first, second = (m-verifModes_CompuTab)/2, (m-verifModes_CompuTab)%2
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 2; i++ {
		o := i
		if rev {
			o = 1 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DEFAULT_VALUE")
				w.DefaultValue = verifMk_DefaultValue(b, sub)
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 2 {
				sub := k - 1
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DEFAULT_VALUE_NUMERIC")
				w.DefaultValueNumeric = verifMk_DefaultValueNumeric(b, sub)
			}
		}
	}
	b.t("/end COMPU_TAB")
	return w
}
func verifEq_CompuTab(a, w CompuTab) bool {
	r := true
	r = verifAnd(r, a.Name == w.Name)
	r = verifAnd(r, a.NameSet == w.NameSet)
	r = verifAnd(r, a.longIdentifier == w.longIdentifier)
	r = verifAnd(r, a.longIdentifierSet == w.longIdentifierSet)
	r = verifAnd(r, a.ConversionType == w.ConversionType)
	r = verifAnd(r, a.ConversionTypeSet == w.ConversionTypeSet)
	r = verifAnd(r, a.NumberValuePairs == w.NumberValuePairs)
	r = verifAnd(r, a.NumberValuePairsSet == w.NumberValuePairsSet)
	r = verifAnd(r, len(a.InVal) == len(w.InVal))
	for i := 0; i < len(a.InVal) && i < len(w.InVal); i++ {
		r = verifAnd(r, a.InVal[i] == w.InVal[i])
	}
	r = verifAnd(r, a.InValSet == w.InValSet)
	r = verifAnd(r, len(a.OutVal) == len(w.OutVal))
	for i := 0; i < len(a.OutVal) && i < len(w.OutVal); i++ {
		r = verifAnd(r, a.OutVal[i] == w.OutVal[i])
	}
	r = verifAnd(r, a.OutValSet == w.OutValSet)
	r = verifAnd(r, verifEq_DefaultValue(a.DefaultValue, w.DefaultValue))
	r = verifAnd(r, verifEq_DefaultValueNumeric(a.DefaultValueNumeric, w.DefaultValueNumeric))
	return r
}

const verifModes_DefaultValueNumeric = 1

// DefaultValueNumeric: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_DefaultValueNumeric(b *verifB, m int) DefaultValueNumeric {
	var w DefaultValueNumeric
	vary := m == 0
	_ = vary
	w.DisplayValue = b.f("DisplayValue")
	w.DisplayValueSet = true
	return w
}
func verifEq_DefaultValueNumeric(a, w DefaultValueNumeric) bool {
	r := true
	r = verifAnd(r, a.DisplayValue == w.DisplayValue)
	r = verifAnd(r, a.DisplayValueSet == w.DisplayValueSet)
	return r
}
