// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_typeDefAxis = 10
const verifPairs_typeDefAxis = 49

// typeDefAxis: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_typeDefAxis(b *verifB, m int) typeDefAxis {
	var w typeDefAxis
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.LongIdentifier = b.s("LongIdentifier")
	w.longIdentifierSet = true
	w.inputQuantity = b.s("inputQuantity")
	w.inputQuantitySet = true
	w.recordLayout = b.s("recordLayout")
	w.recordLayoutSet = true
	w.maxDiff = b.f("maxDiff")
	w.maxDiffSet = true
	w.conversion = b.s("conversion")
	w.conversionSet = true
	w.maxAxisPoints = b.u16("maxAxisPoints")
	w.maxAxisPointsSet = true
	w.lowerLimit = b.f("lowerLimit")
	w.lowerLimitSet = true
	w.upperLimit = b.f("upperLimit")
	w.upperLimitSet = true
	k := m - 1
	all, rev := m == verifModes_typeDefAxis-2, m == verifModes_typeDefAxis-1
	pair, first, second, nested := m >= verifModes_typeDefAxis, -1, -1, m-verifModes_typeDefAxis-49
	if pair && nested < 0 {
		first, second = (m-verifModes_typeDefAxis)/7, (m-verifModes_typeDefAxis)%7
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 7; i++ {
		o := i
		if rev {
			o = 6 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("BYTE_ORDER")
				w.byteOrder = verifMk_ByteOrder(b, sub)
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 2 {
				sub := k - 1
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DEPOSIT")
				w.deposit = verifMk_deposit(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 2 && k < 3 {
				sub := k - 2
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("EXTENDED_LIMITS")
				w.extendedLimits = verifMk_extendedLimits(b, sub)
			}
		case 3:
			if all || rev || k == -2 || k >= 3 && k < 4 {
				sub := k - 3
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FORMAT")
				w.format = verifMk_format(b, sub)
			}
		case 4:
			if all || rev || k == -2 || k >= 4 && k < 5 {
				sub := k - 4
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MONOTONY")
				w.monotony = verifMk_Monotony(b, sub)
			}
		case 5:
			if all || rev || k == -2 || k >= 5 && k < 6 {
				sub := k - 5
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("PHYS_UNIT")
				w.physUnit = verifMk_physUnit(b, sub)
			}
		case 6:
			if all || rev || k == -2 || k >= 6 && k < 7 {
				sub := k - 6
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("STEP_SIZE")
				w.stepSize = verifMk_StepSize(b, sub)
			}
		}
	}
	b.t("/end TYPEDEF_AXIS")
	return w
}
func verifEq_typeDefAxis(a, w typeDefAxis) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.LongIdentifier == w.LongIdentifier)
	r = verifAnd(r, a.longIdentifierSet == w.longIdentifierSet)
	r = verifAnd(r, a.inputQuantity == w.inputQuantity)
	r = verifAnd(r, a.inputQuantitySet == w.inputQuantitySet)
	r = verifAnd(r, a.recordLayout == w.recordLayout)
	r = verifAnd(r, a.recordLayoutSet == w.recordLayoutSet)
	r = verifAnd(r, a.maxDiff == w.maxDiff)
	r = verifAnd(r, a.maxDiffSet == w.maxDiffSet)
	r = verifAnd(r, a.conversion == w.conversion)
	r = verifAnd(r, a.conversionSet == w.conversionSet)
	r = verifAnd(r, a.maxAxisPoints == w.maxAxisPoints)
	r = verifAnd(r, a.maxAxisPointsSet == w.maxAxisPointsSet)
	r = verifAnd(r, a.lowerLimit == w.lowerLimit)
	r = verifAnd(r, a.lowerLimitSet == w.lowerLimitSet)
	r = verifAnd(r, a.upperLimit == w.upperLimit)
	r = verifAnd(r, a.upperLimitSet == w.upperLimitSet)
	r = verifAnd(r, verifEq_ByteOrder(a.byteOrder, w.byteOrder))
	r = verifAnd(r, verifEq_deposit(a.deposit, w.deposit))
	r = verifAnd(r, verifEq_extendedLimits(a.extendedLimits, w.extendedLimits))
	r = verifAnd(r, verifEq_format(a.format, w.format))
	r = verifAnd(r, verifEq_Monotony(a.monotony, w.monotony))
	r = verifAnd(r, verifEq_physUnit(a.physUnit, w.physUnit))
	r = verifAnd(r, verifEq_StepSize(a.stepSize, w.stepSize))
	return r
}
