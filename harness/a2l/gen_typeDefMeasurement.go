// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_typeDefMeasurement = 17
const verifPairs_typeDefMeasurement = 90

// typeDefMeasurement: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_typeDefMeasurement(b *verifB, m int) typeDefMeasurement {
	var w typeDefMeasurement
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.longIdentifier = b.s("longIdentifier")
	w.longIdentifierSet = true
	w.datatype = DataTypeEnum(b.e("datatype", verifE_DataTypeEnum, vary))
	w.datatypeSet = true
	w.conversion = b.s("conversion")
	w.conversionSet = true
	w.resolution = b.u16("resolution")
	w.resolutionSet = true
	w.accuracy = b.f("accuracy")
	w.accuracySet = true
	w.lowerLimit = b.f("lowerLimit")
	w.lowerLimitSet = true
	w.upperLimit = b.f("upperLimit")
	w.upperLimitSet = true
	k := m - 1
	all, rev := m == verifModes_typeDefMeasurement-2, m == verifModes_typeDefMeasurement-1
	pair, first, second, nested := m >= verifModes_typeDefMeasurement, -1, -1, m-verifModes_typeDefMeasurement-81
	if pair && nested < 0 {
		first, second = (m-verifModes_typeDefMeasurement)/9, (m-verifModes_typeDefMeasurement)%9
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 9; i++ {
		o := i
		if rev {
			o = 8 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("BIT_MASK")
				w.bitMask = verifMk_bitMask(b, sub)
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 7 || pair && nested >= 0 && nested < 9 {
				sub := k - 1
				if all || rev {
					sub = verifModes_bitOperation - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
					if k != -2 {
						sub = verifModes_bitOperation + nested - 0
					}
				}
				_ = sub
				b.t("/begin BIT_OPERATION")
				w.bitOperation = verifMk_bitOperation(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 7 && k < 8 {
				sub := k - 7
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("BYTE_ORDER")
				w.byteOrder = verifMk_ByteOrder(b, sub)
			}
		case 3:
			if all || rev || k == -2 || k >= 8 && k < 9 {
				sub := k - 8
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DISCRETE")
				w.discrete = verifMk_discreteKeyword(b, sub)
			}
		case 4:
			if all || rev || k == -2 || k >= 9 && k < 10 {
				sub := k - 9
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ERROR_MASK")
				w.errorMask = verifMk_errorMask(b, sub)
			}
		case 5:
			if all || rev || k == -2 || k >= 10 && k < 11 {
				sub := k - 10
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FORMAT")
				w.format = verifMk_format(b, sub)
			}
		case 6:
			if all || rev || k == -2 || k >= 11 && k < 12 {
				sub := k - 11
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("LAYOUT")
				w.layout = verifMk_layout(b, sub)
			}
		case 7:
			if all || rev || k == -2 || k >= 12 && k < 13 {
				sub := k - 12
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MATRIX_DIM")
				w.matrixDim = verifMk_MatrixDim(b, sub)
			}
		case 8:
			if all || rev || k == -2 || k >= 13 && k < 14 {
				sub := k - 13
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("PHYS_UNIT")
				w.physUnit = verifMk_physUnit(b, sub)
			}
		}
	}
	b.t("/end TYPEDEF_MEASUREMENT")
	return w
}
func verifEq_typeDefMeasurement(a, w typeDefMeasurement) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.longIdentifier == w.longIdentifier)
	r = verifAnd(r, a.longIdentifierSet == w.longIdentifierSet)
	r = verifAnd(r, a.datatype == w.datatype)
	r = verifAnd(r, a.datatypeSet == w.datatypeSet)
	r = verifAnd(r, a.conversion == w.conversion)
	r = verifAnd(r, a.conversionSet == w.conversionSet)
	r = verifAnd(r, a.resolution == w.resolution)
	r = verifAnd(r, a.resolutionSet == w.resolutionSet)
	r = verifAnd(r, a.accuracy == w.accuracy)
	r = verifAnd(r, a.accuracySet == w.accuracySet)
	r = verifAnd(r, a.lowerLimit == w.lowerLimit)
	r = verifAnd(r, a.lowerLimitSet == w.lowerLimitSet)
	r = verifAnd(r, a.upperLimit == w.upperLimit)
	r = verifAnd(r, a.upperLimitSet == w.upperLimitSet)
	r = verifAnd(r, verifEq_bitMask(a.bitMask, w.bitMask))
	r = verifAnd(r, verifEq_bitOperation(a.bitOperation, w.bitOperation))
	r = verifAnd(r, verifEq_ByteOrder(a.byteOrder, w.byteOrder))
	r = verifAnd(r, verifEq_discreteKeyword(a.discrete, w.discrete))
	r = verifAnd(r, verifEq_errorMask(a.errorMask, w.errorMask))
	r = verifAnd(r, verifEq_format(a.format, w.format))
	r = verifAnd(r, verifEq_layout(a.layout, w.layout))
	r = verifAnd(r, verifEq_MatrixDim(a.matrixDim, w.matrixDim))
	r = verifAnd(r, verifEq_physUnit(a.physUnit, w.physUnit))
	return r
}
