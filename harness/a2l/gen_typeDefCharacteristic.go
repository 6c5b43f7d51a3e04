// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_typeDefCharacteristic = 36
const verifPairs_typeDefCharacteristic = 355

// typeDefCharacteristic: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_typeDefCharacteristic(b *verifB, m int) typeDefCharacteristic {
	var w typeDefCharacteristic
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.LongIdentifier = b.s("LongIdentifier")
	w.longIdentifierSet = true
	w.Type = TypeEnum(b.e("Type", verifE_TypeEnum, vary))
	w.TypeSet = true
	w.recordLayout = b.s("recordLayout")
	w.recordLayoutSet = true
	w.maxDiff = b.f("maxDiff")
	w.maxDiffSet = true
	w.conversion = b.s("conversion")
	w.conversionSet = true
	w.lowerLimit = b.f("lowerLimit")
	w.lowerLimitSet = true
	w.upperLimit = b.f("upperLimit")
	w.upperLimitSet = true
	k := m - 1
	all, rev := m == verifModes_typeDefCharacteristic-2, m == verifModes_typeDefCharacteristic-1
	pair, first, second, nested := m >= verifModes_typeDefCharacteristic, -1, -1, m-verifModes_typeDefCharacteristic-121
	if pair && nested < 0 {
		first, second = (m-verifModes_typeDefCharacteristic)/11, (m-verifModes_typeDefCharacteristic)%11
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 11; i++ {
		o := i
		if rev {
			o = 10 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 23 || pair && nested >= 0 && nested < 234 {
				sub := k - 0
				if all || rev {
					sub = verifModes_axisDescr - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
					if k != -2 {
						sub = verifModes_axisDescr + nested - 0
					}
				}
				_ = sub
				b.t("/begin AXIS_DESCR")
				w.axisDescr = append(w.axisDescr, verifMk_axisDescr(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin AXIS_DESCR")
					w.axisDescr = append(w.axisDescr, verifMk_axisDescr(b, -1))
				}
			}
		case 1:
			if all || rev || k == -2 || k >= 23 && k < 24 {
				sub := k - 23
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("BIT_MASK")
				w.bitMask = verifMk_bitMask(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 24 && k < 25 {
				sub := k - 24
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("BYTE_ORDER")
				w.byteOrder = verifMk_ByteOrder(b, sub)
			}
		case 3:
			if all || rev || k == -2 || k >= 25 && k < 26 {
				sub := k - 25
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DISCRETE")
				w.discrete = verifMk_discreteKeyword(b, sub)
			}
		case 4:
			if all || rev || k == -2 || k >= 26 && k < 27 {
				sub := k - 26
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ENCODING")
				w.encoding = encodingEnum(b.e("encoding", verifE_EncodingEnum, sub == 0))
			}
		case 5:
			if all || rev || k == -2 || k >= 27 && k < 28 {
				sub := k - 27
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("EXTENDED_LIMITS")
				w.extendedLimits = verifMk_extendedLimits(b, sub)
			}
		case 6:
			if all || rev || k == -2 || k >= 28 && k < 29 {
				sub := k - 28
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FORMAT")
				w.format = verifMk_format(b, sub)
			}
		case 7:
			if all || rev || k == -2 || k >= 29 && k < 30 {
				sub := k - 29
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MATRIX_DIM")
				w.matrixDim = verifMk_MatrixDim(b, sub)
			}
		case 8:
			if all || rev || k == -2 || k >= 30 && k < 31 {
				sub := k - 30
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("NUMBER")
				w.number = verifMk_Number(b, sub)
			}
		case 9:
			if all || rev || k == -2 || k >= 31 && k < 32 {
				sub := k - 31
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("PHYS_UNIT")
				w.physUnit = verifMk_physUnit(b, sub)
			}
		case 10:
			if all || rev || k == -2 || k >= 32 && k < 33 {
				sub := k - 32
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("STEP_SIZE")
				w.stepSize = verifMk_StepSize(b, sub)
			}
		}
	}
	b.t("/end TYPEDEF_CHARACTERISTIC")
	return w
}
func verifEq_typeDefCharacteristic(a, w typeDefCharacteristic) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.LongIdentifier == w.LongIdentifier)
	r = verifAnd(r, a.longIdentifierSet == w.longIdentifierSet)
	r = verifAnd(r, a.Type == w.Type)
	r = verifAnd(r, a.TypeSet == w.TypeSet)
	r = verifAnd(r, a.recordLayout == w.recordLayout)
	r = verifAnd(r, a.recordLayoutSet == w.recordLayoutSet)
	r = verifAnd(r, a.maxDiff == w.maxDiff)
	r = verifAnd(r, a.maxDiffSet == w.maxDiffSet)
	r = verifAnd(r, a.conversion == w.conversion)
	r = verifAnd(r, a.conversionSet == w.conversionSet)
	r = verifAnd(r, a.lowerLimit == w.lowerLimit)
	r = verifAnd(r, a.lowerLimitSet == w.lowerLimitSet)
	r = verifAnd(r, a.upperLimit == w.upperLimit)
	r = verifAnd(r, a.upperLimitSet == w.upperLimitSet)
	r = verifAnd(r, len(a.axisDescr) == len(w.axisDescr))
	for i := 0; i < len(a.axisDescr) && i < len(w.axisDescr); i++ {
		r = verifAnd(r, verifEq_axisDescr(a.axisDescr[i], w.axisDescr[i]))
	}
	r = verifAnd(r, verifEq_bitMask(a.bitMask, w.bitMask))
	r = verifAnd(r, verifEq_ByteOrder(a.byteOrder, w.byteOrder))
	r = verifAnd(r, verifEq_discreteKeyword(a.discrete, w.discrete))
	r = verifAnd(r, a.encoding == w.encoding)
	r = verifAnd(r, verifEq_extendedLimits(a.extendedLimits, w.extendedLimits))
	r = verifAnd(r, verifEq_format(a.format, w.format))
	r = verifAnd(r, verifEq_MatrixDim(a.matrixDim, w.matrixDim))
	r = verifAnd(r, verifEq_Number(a.number, w.number))
	r = verifAnd(r, verifEq_physUnit(a.physUnit, w.physUnit))
	r = verifAnd(r, verifEq_StepSize(a.stepSize, w.stepSize))
	return r
}
