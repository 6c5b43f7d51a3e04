// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_Coeffs = 1

// Coeffs: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_Coeffs(b *verifB, m int) Coeffs {
	var w Coeffs
	vary := m == 0
	_ = vary
	w.A = b.f("A")
	w.ASet = true
	w.B = b.f("B")
	w.BSet = true
	w.C = b.f("C")
	w.CSet = true
	w.D = b.f("D")
	w.DSet = true
	w.E = b.f("E")
	w.ESet = true
	w.F = b.f("F")
	w.FSet = true
	return w
}
func verifEq_Coeffs(a, w Coeffs) bool {
	r := true
	r = verifAnd(r, a.A == w.A)
	r = verifAnd(r, a.ASet == w.ASet)
	r = verifAnd(r, a.B == w.B)
	r = verifAnd(r, a.BSet == w.BSet)
	r = verifAnd(r, a.C == w.C)
	r = verifAnd(r, a.CSet == w.CSet)
	r = verifAnd(r, a.D == w.D)
	r = verifAnd(r, a.DSet == w.DSet)
	r = verifAnd(r, a.E == w.E)
	r = verifAnd(r, a.ESet == w.ESet)
	r = verifAnd(r, a.F == w.F)
	r = verifAnd(r, a.FSet == w.FSet)
	return r
}

const verifModes_CoeffsLinear = 1

// CoeffsLinear: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_CoeffsLinear(b *verifB, m int) CoeffsLinear {
	var w CoeffsLinear
	vary := m == 0
	_ = vary
	w.A = b.f("A")
	w.ASet = true
	w.B = b.f("B")
	w.BSet = true
	return w
}
func verifEq_CoeffsLinear(a, w CoeffsLinear) bool {
	r := true
	r = verifAnd(r, a.A == w.A)
	r = verifAnd(r, a.ASet == w.ASet)
	r = verifAnd(r, a.B == w.B)
	r = verifAnd(r, a.BSet == w.BSet)
	return r
}

const verifModes_CompuMethod = 12
const verifPairs_CompuMethod = 36

// CompuMethod: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_CompuMethod(b *verifB, m int) CompuMethod {
	var w CompuMethod
	vary := m == 0
	_ = vary
	w.Name = b.s("Name")
	w.NameSet = true
	w.LongIdentifier = b.s("LongIdentifier")
	w.LongIdentifierSet = true
	w.ConversionType = conversionTypeEnum(b.e("ConversionType", verifE_ConversionTypeEnum, vary))
	w.ConversionTypeSet = true
	w.Format = b.s("Format")
	w.FormatSet = true
	w.Unit = b.s("Unit")
	w.UnitSet = true
	k := m - 1
	all, rev := m == verifModes_CompuMethod-2, m == verifModes_CompuMethod-1
	pair, first, second, nested := m >= verifModes_CompuMethod, -1, -1, m-verifModes_CompuMethod-36
	if pair && nested < 0 {
		first, second = (m-verifModes_CompuMethod)/6, (m-verifModes_CompuMethod)%6
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 6; i++ {
		o := i
		if rev {
			o = 5 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("COEFFS")
				w.Coeffs = verifMk_Coeffs(b, sub)
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 2 {
				sub := k - 1
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("COEFFS_LINEAR")
				w.CoeffsLinear = verifMk_CoeffsLinear(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 2 && k < 3 {
				sub := k - 2
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("COMPU_TAB_REF")
				w.CompuTabRef = verifMk_CompuTabRef(b, sub)
			}
		case 3:
			if all || rev || k == -2 || k >= 3 && k < 7 {
				sub := k - 3
				if all || rev {
					sub = verifModes_Formula - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin FORMULA")
				w.Formula = append(w.Formula, verifMk_Formula(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin FORMULA")
					w.Formula = append(w.Formula, verifMk_Formula(b, -1))
				}
			}
		case 4:
			if all || rev || k == -2 || k >= 7 && k < 8 {
				sub := k - 7
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("REF_UNIT")
				w.RefUnit = verifMk_refUnit(b, sub)
			}
		case 5:
			if all || rev || k == -2 || k >= 8 && k < 9 {
				sub := k - 8
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("STATUS_STRING_REF")
				w.StatusStringRef = verifMk_StatusStringRef(b, sub)
			}
		}
	}
	b.t("/end COMPU_METHOD")
	return w
}
func verifEq_CompuMethod(a, w CompuMethod) bool {
	r := true
	r = verifAnd(r, a.Name == w.Name)
	r = verifAnd(r, a.NameSet == w.NameSet)
	r = verifAnd(r, a.LongIdentifier == w.LongIdentifier)
	r = verifAnd(r, a.LongIdentifierSet == w.LongIdentifierSet)
	r = verifAnd(r, a.ConversionType == w.ConversionType)
	r = verifAnd(r, a.ConversionTypeSet == w.ConversionTypeSet)
	r = verifAnd(r, a.Format == w.Format)
	r = verifAnd(r, a.FormatSet == w.FormatSet)
	r = verifAnd(r, a.Unit == w.Unit)
	r = verifAnd(r, a.UnitSet == w.UnitSet)
	r = verifAnd(r, verifEq_Coeffs(a.Coeffs, w.Coeffs))
	r = verifAnd(r, verifEq_CoeffsLinear(a.CoeffsLinear, w.CoeffsLinear))
	r = verifAnd(r, verifEq_CompuTabRef(a.CompuTabRef, w.CompuTabRef))
	r = verifAnd(r, len(a.Formula) == len(w.Formula))
	for i := 0; i < len(a.Formula) && i < len(w.Formula); i++ {
		r = verifAnd(r, verifEq_Formula(a.Formula[i], w.Formula[i]))
	}
	r = verifAnd(r, verifEq_refUnit(a.RefUnit, w.RefUnit))
	r = verifAnd(r, verifEq_StatusStringRef(a.StatusStringRef, w.StatusStringRef))
	return r
}

const verifModes_CompuTabRef = 1

// CompuTabRef: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_CompuTabRef(b *verifB, m int) CompuTabRef {
	var w CompuTabRef
	vary := m == 0
	_ = vary
	w.ConversionTable = b.s("ConversionTable")
	w.ConversionTableSet = true
	return w
}
func verifEq_CompuTabRef(a, w CompuTabRef) bool {
	r := true
	r = verifAnd(r, a.ConversionTable == w.ConversionTable)
	r = verifAnd(r, a.ConversionTableSet == w.ConversionTableSet)
	return r
}

const verifModes_Formula = 4

// Formula: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_Formula(b *verifB, m int) Formula {
	var w Formula
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.fx = append(w.fx, b.s("fx"))
	}
	w.fxSet = true
	k := m - 1
	all, rev := m == verifModes_Formula-2, m == verifModes_Formula-1
	pair, first, second, nested := m >= verifModes_Formula, -1, -1, m-verifModes_Formula-1
	if pair && nested < 0 {
		first, second = (m-verifModes_Formula)/1, (m-verifModes_Formula)%1
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 1; i++ {
		o := i
		if rev {
			o = 0 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FORMULA_INV")
				w.formulaInv = verifMk_formulaInv(b, sub)
			}
		}
	}
	b.t("/end FORMULA")
	return w
}
func verifEq_Formula(a, w Formula) bool {
	r := true
	r = verifAnd(r, len(a.fx) == len(w.fx))
	for i := 0; i < len(a.fx) && i < len(w.fx); i++ {
		r = verifAnd(r, a.fx[i] == w.fx[i])
	}
	r = verifAnd(r, a.fxSet == w.fxSet)
	r = verifAnd(r, verifEq_formulaInv(a.formulaInv, w.formulaInv))
	return r
}

const verifModes_StatusStringRef = 1

// StatusStringRef: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_StatusStringRef(b *verifB, m int) StatusStringRef {
	var w StatusStringRef
	vary := m == 0
	_ = vary
	w.ConversionTable = b.s("ConversionTable")
	w.ConversionTableSet = true
	return w
}
func verifEq_StatusStringRef(a, w StatusStringRef) bool {
	r := true
	r = verifAnd(r, a.ConversionTable == w.ConversionTable)
	r = verifAnd(r, a.ConversionTableSet == w.ConversionTableSet)
	return r
}

const verifModes_formulaInv = 1

// formulaInv: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_formulaInv(b *verifB, m int) formulaInv {
	var w formulaInv
	vary := m == 0
	_ = vary
	w.gx = b.s("gx")
	w.gxSet = true
	return w
}
func verifEq_formulaInv(a, w formulaInv) bool {
	r := true
	r = verifAnd(r, a.gx == w.gx)
	r = verifAnd(r, a.gxSet == w.gxSet)
	return r
}
