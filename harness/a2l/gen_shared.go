// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_ByteOrder = 1

// ByteOrder: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_ByteOrder(b *verifB, m int) ByteOrder {
	var w ByteOrder
	vary := m == 0
	_ = vary
	w.ByteOrder = ByteOrderEnum(b.e("ByteOrder", verifE_ByteOrderEnum, vary))
	w.ByteOrderSet = true
	return w
}
func verifEq_ByteOrder(a, w ByteOrder) bool {
	r := true
	r = verifAnd(r, a.ByteOrder == w.ByteOrder)
	r = verifAnd(r, a.ByteOrderSet == w.ByteOrderSet)
	return r
}

const verifModes_DefaultValue = 1

// DefaultValue: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_DefaultValue(b *verifB, m int) DefaultValue {
	var w DefaultValue
	vary := m == 0
	_ = vary
	w.DisplayString = b.s("DisplayString")
	w.DisplayStringSet = true
	return w
}
func verifEq_DefaultValue(a, w DefaultValue) bool {
	r := true
	r = verifAnd(r, a.DisplayString == w.DisplayString)
	r = verifAnd(r, a.DisplayStringSet == w.DisplayStringSet)
	return r
}

const verifModes_DisplayIdentifier = 1

// DisplayIdentifier: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_DisplayIdentifier(b *verifB, m int) DisplayIdentifier {
	var w DisplayIdentifier
	vary := m == 0
	_ = vary
	w.displayName = b.s("displayName")
	w.displayNameSet = true
	return w
}
func verifEq_DisplayIdentifier(a, w DisplayIdentifier) bool {
	r := true
	r = verifAnd(r, a.displayName == w.displayName)
	r = verifAnd(r, a.displayNameSet == w.displayNameSet)
	return r
}

const verifModes_FunctionList = 1

// FunctionList: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_FunctionList(b *verifB, m int) FunctionList {
	var w FunctionList
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.name = append(w.name, b.s("name"))
	}
	w.nameSet = true
	b.t("/end FUNCTION_LIST")
	return w
}
func verifEq_FunctionList(a, w FunctionList) bool {
	r := true
	r = verifAnd(r, len(a.name) == len(w.name))
	for i := 0; i < len(a.name) && i < len(w.name); i++ {
		r = verifAnd(r, a.name[i] == w.name[i])
	}
	r = verifAnd(r, a.nameSet == w.nameSet)
	return r
}

const verifModes_IfData = 1

// IfData: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_IfData(b *verifB, m int) IfData {
	var w IfData
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.data = append(w.data, b.s("data"))
	}
	w.dataSet = true
	b.t("/end IF_DATA")
	return w
}
func verifEq_IfData(a, w IfData) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, len(a.data) == len(w.data))
	for i := 0; i < len(a.data) && i < len(w.data); i++ {
		r = verifAnd(r, a.data[i] == w.data[i])
	}
	r = verifAnd(r, a.dataSet == w.dataSet)
	return r
}

const verifModes_LeftShift = 1

// LeftShift: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_LeftShift(b *verifB, m int) LeftShift {
	var w LeftShift
	vary := m == 0
	_ = vary
	w.bitcount = b.u32("bitcount")
	w.bitcountSet = true
	return w
}
func verifEq_LeftShift(a, w LeftShift) bool {
	r := true
	r = verifAnd(r, a.bitcount == w.bitcount)
	r = verifAnd(r, a.bitcountSet == w.bitcountSet)
	return r
}

const verifModes_MatrixDim = 1

// MatrixDim: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_MatrixDim(b *verifB, m int) MatrixDim {
	var w MatrixDim
	vary := m == 0
	_ = vary
	n := 3
	if vary {
		n = 1 + verifChoose("dims", 5)
	}
	if n > 0 {
		w.DimX, w.DimXSet = b.u16("DimX"), true
	}
	if n > 1 {
		w.DimY, w.DimYSet = b.u16("DimY"), true
	}
	if n > 2 {
		w.DimZ, w.DimZSet = b.u16("DimZ"), true
	}
	if n > 3 {
		w.Dim4, w.Dim4Set = b.u16("Dim4"), true
	}
	if n > 4 {
		w.Dim5, w.Dim5Set = b.u16("Dim5"), true
	}
	return w
}
func verifEq_MatrixDim(a, w MatrixDim) bool {
	r := true
	r = verifAnd(r, a.DimX == w.DimX)
	r = verifAnd(r, a.DimXSet == w.DimXSet)
	r = verifAnd(r, a.DimY == w.DimY)
	r = verifAnd(r, a.DimYSet == w.DimYSet)
	r = verifAnd(r, a.DimZ == w.DimZ)
	r = verifAnd(r, a.DimZSet == w.DimZSet)
	r = verifAnd(r, a.Dim4 == w.Dim4)
	r = verifAnd(r, a.Dim4Set == w.Dim4Set)
	r = verifAnd(r, a.Dim5 == w.Dim5)
	r = verifAnd(r, a.Dim5Set == w.Dim5Set)
	return r
}

const verifModes_MaxGrad = 1

// MaxGrad: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_MaxGrad(b *verifB, m int) MaxGrad {
	var w MaxGrad
	vary := m == 0
	_ = vary
	w.maxGradient = b.f("maxGradient")
	w.maxGradientSet = true
	return w
}
func verifEq_MaxGrad(a, w MaxGrad) bool {
	r := true
	r = verifAnd(r, a.maxGradient == w.maxGradient)
	r = verifAnd(r, a.maxGradientSet == w.maxGradientSet)
	return r
}

const verifModes_MaxRefresh = 1

// MaxRefresh: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_MaxRefresh(b *verifB, m int) MaxRefresh {
	var w MaxRefresh
	vary := m == 0
	_ = vary
	w.scalingUnit = b.u16("scalingUnit")
	w.scalingUnitSet = true
	w.rate = b.u32("rate")
	w.rateSet = true
	return w
}
func verifEq_MaxRefresh(a, w MaxRefresh) bool {
	r := true
	r = verifAnd(r, a.scalingUnit == w.scalingUnit)
	r = verifAnd(r, a.scalingUnitSet == w.scalingUnitSet)
	r = verifAnd(r, a.rate == w.rate)
	r = verifAnd(r, a.rateSet == w.rateSet)
	return r
}

const verifModes_Monotony = 1

// Monotony: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_Monotony(b *verifB, m int) Monotony {
	var w Monotony
	vary := m == 0
	_ = vary
	w.monotony = monotonyTypeEnum(b.e("monotony", verifE_MonotonyTypeEnum, vary))
	w.monotonySet = true
	return w
}
func verifEq_Monotony(a, w Monotony) bool {
	r := true
	r = verifAnd(r, a.monotony == w.monotony)
	r = verifAnd(r, a.monotonySet == w.monotonySet)
	return r
}

const verifModes_Number = 1

// Number: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_Number(b *verifB, m int) Number {
	var w Number
	vary := m == 0
	_ = vary
	w.number = b.u16("number")
	w.numberSet = true
	return w
}
func verifEq_Number(a, w Number) bool {
	r := true
	r = verifAnd(r, a.number == w.number)
	r = verifAnd(r, a.numberSet == w.numberSet)
	return r
}

const verifModes_RightShift = 1

// RightShift: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_RightShift(b *verifB, m int) RightShift {
	var w RightShift
	vary := m == 0
	_ = vary
	w.bitcount = b.u32("bitcount")
	w.bitcountSet = true
	return w
}
func verifEq_RightShift(a, w RightShift) bool {
	r := true
	r = verifAnd(r, a.bitcount == w.bitcount)
	r = verifAnd(r, a.bitcountSet == w.bitcountSet)
	return r
}

const verifModes_SignExtendKeyword = 1

// SignExtendKeyword: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_SignExtendKeyword(b *verifB, m int) SignExtendKeyword {
	var w SignExtendKeyword
	vary := m == 0
	_ = vary
	w.value, w.valueSet = true, true
	return w
}
func verifEq_SignExtendKeyword(a, w SignExtendKeyword) bool {
	r := true
	r = verifAnd(r, a.value == w.value)
	r = verifAnd(r, a.valueSet == w.valueSet)
	return r
}

const verifModes_StepSize = 1

// StepSize: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_StepSize(b *verifB, m int) StepSize {
	var w StepSize
	vary := m == 0
	_ = vary
	w.stepSize = b.f("stepSize")
	w.stepSizeSet = true
	return w
}
func verifEq_StepSize(a, w StepSize) bool {
	r := true
	r = verifAnd(r, a.stepSize == w.stepSize)
	r = verifAnd(r, a.stepSizeSet == w.stepSizeSet)
	return r
}

const verifModes_alignmentByte = 1

// alignmentByte: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_alignmentByte(b *verifB, m int) alignmentByte {
	var w alignmentByte
	vary := m == 0
	_ = vary
	w.AlignmentBorder = b.u16("AlignmentBorder")
	w.AlignmentBorderSet = true
	return w
}
func verifEq_alignmentByte(a, w alignmentByte) bool {
	r := true
	r = verifAnd(r, a.AlignmentBorder == w.AlignmentBorder)
	r = verifAnd(r, a.AlignmentBorderSet == w.AlignmentBorderSet)
	return r
}

const verifModes_alignmentFloat16Ieee = 1

// alignmentFloat16Ieee: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_alignmentFloat16Ieee(b *verifB, m int) alignmentFloat16Ieee {
	var w alignmentFloat16Ieee
	vary := m == 0
	_ = vary
	w.AlignmentBorder = b.u16("AlignmentBorder")
	w.AlignmentBorderSet = true
	return w
}
func verifEq_alignmentFloat16Ieee(a, w alignmentFloat16Ieee) bool {
	r := true
	r = verifAnd(r, a.AlignmentBorder == w.AlignmentBorder)
	r = verifAnd(r, a.AlignmentBorderSet == w.AlignmentBorderSet)
	return r
}

const verifModes_alignmentFloat32Ieee = 1

// alignmentFloat32Ieee: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_alignmentFloat32Ieee(b *verifB, m int) alignmentFloat32Ieee {
	var w alignmentFloat32Ieee
	vary := m == 0
	_ = vary
	w.AlignmentBorder = b.u16("AlignmentBorder")
	w.AlignmentBorderSet = true
	return w
}
func verifEq_alignmentFloat32Ieee(a, w alignmentFloat32Ieee) bool {
	r := true
	r = verifAnd(r, a.AlignmentBorder == w.AlignmentBorder)
	r = verifAnd(r, a.AlignmentBorderSet == w.AlignmentBorderSet)
	return r
}

const verifModes_alignmentFloat64Ieee = 1

// alignmentFloat64Ieee: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_alignmentFloat64Ieee(b *verifB, m int) alignmentFloat64Ieee {
	var w alignmentFloat64Ieee
	vary := m == 0
	_ = vary
	w.AlignmentBorder = b.u16("AlignmentBorder")
	w.AlignmentBorderSet = true
	return w
}
func verifEq_alignmentFloat64Ieee(a, w alignmentFloat64Ieee) bool {
	r := true
	r = verifAnd(r, a.AlignmentBorder == w.AlignmentBorder)
	r = verifAnd(r, a.AlignmentBorderSet == w.AlignmentBorderSet)
	return r
}

const verifModes_alignmentInt64 = 1

// alignmentInt64: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_alignmentInt64(b *verifB, m int) alignmentInt64 {
	var w alignmentInt64
	vary := m == 0
	_ = vary
	w.AlignmentBorder = b.u16("AlignmentBorder")
	w.AlignmentBorderSet = true
	return w
}
func verifEq_alignmentInt64(a, w alignmentInt64) bool {
	r := true
	r = verifAnd(r, a.AlignmentBorder == w.AlignmentBorder)
	r = verifAnd(r, a.AlignmentBorderSet == w.AlignmentBorderSet)
	return r
}

const verifModes_alignmentLong = 1

// alignmentLong: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_alignmentLong(b *verifB, m int) alignmentLong {
	var w alignmentLong
	vary := m == 0
	_ = vary
	w.AlignmentBorder = b.u16("AlignmentBorder")
	w.AlignmentBorderSet = true
	return w
}
func verifEq_alignmentLong(a, w alignmentLong) bool {
	r := true
	r = verifAnd(r, a.AlignmentBorder == w.AlignmentBorder)
	r = verifAnd(r, a.AlignmentBorderSet == w.AlignmentBorderSet)
	return r
}

const verifModes_alignmentWord = 1

// alignmentWord: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_alignmentWord(b *verifB, m int) alignmentWord {
	var w alignmentWord
	vary := m == 0
	_ = vary
	w.AlignmentBorder = b.u16("AlignmentBorder")
	w.AlignmentBorderSet = true
	return w
}
func verifEq_alignmentWord(a, w alignmentWord) bool {
	r := true
	r = verifAnd(r, a.AlignmentBorder == w.AlignmentBorder)
	r = verifAnd(r, a.AlignmentBorderSet == w.AlignmentBorderSet)
	return r
}

const verifModes_annotation = 6
const verifPairs_annotation = 9

// annotation: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_annotation(b *verifB, m int) annotation {
	var w annotation
	vary := m == 0
	_ = vary
	k := m - 1
	all, rev := m == verifModes_annotation-2, m == verifModes_annotation-1
	pair, first, second, nested := m >= verifModes_annotation, -1, -1, m-verifModes_annotation-9
	if pair && nested < 0 {
		first, second = (m-verifModes_annotation)/3, (m-verifModes_annotation)%3
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 3; i++ {
		o := i
		if rev {
			o = 2 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ANNOTATION_LABEL")
				w.annotationLabel = verifMk_annotationLabel(b, sub)
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 2 {
				sub := k - 1
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ANNOTATION_ORIGIN")
				w.annotationOrigin = verifMk_annotationOrigin(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 2 && k < 3 {
				sub := k - 2
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin ANNOTATION_TEXT")
				w.annotationText = append(w.annotationText, verifMk_annotationText(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin ANNOTATION_TEXT")
					w.annotationText = append(w.annotationText, verifMk_annotationText(b, -1))
				}
			}
		}
	}
	b.t("/end ANNOTATION")
	return w
}
func verifEq_annotation(a, w annotation) bool {
	r := true
	r = verifAnd(r, verifEq_annotationLabel(a.annotationLabel, w.annotationLabel))
	r = verifAnd(r, verifEq_annotationOrigin(a.annotationOrigin, w.annotationOrigin))
	r = verifAnd(r, len(a.annotationText) == len(w.annotationText))
	for i := 0; i < len(a.annotationText) && i < len(w.annotationText); i++ {
		r = verifAnd(r, verifEq_annotationText(a.annotationText[i], w.annotationText[i]))
	}
	return r
}

const verifModes_annotationLabel = 1

// annotationLabel: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_annotationLabel(b *verifB, m int) annotationLabel {
	var w annotationLabel
	vary := m == 0
	_ = vary
	w.label = b.s("label")
	w.labelSet = true
	return w
}
func verifEq_annotationLabel(a, w annotationLabel) bool {
	r := true
	r = verifAnd(r, a.label == w.label)
	r = verifAnd(r, a.labelSet == w.labelSet)
	return r
}

const verifModes_annotationOrigin = 1

// annotationOrigin: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_annotationOrigin(b *verifB, m int) annotationOrigin {
	var w annotationOrigin
	vary := m == 0
	_ = vary
	w.origin = b.s("origin")
	w.originSet = true
	return w
}
func verifEq_annotationOrigin(a, w annotationOrigin) bool {
	r := true
	r = verifAnd(r, a.origin == w.origin)
	r = verifAnd(r, a.originSet == w.originSet)
	return r
}

const verifModes_annotationText = 1

// annotationText: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_annotationText(b *verifB, m int) annotationText {
	var w annotationText
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.annotationText += " " + b.c()
	}
	w.annotationTextSet = true
	b.t("/end ANNOTATION_TEXT")
	return w
}
func verifEq_annotationText(a, w annotationText) bool {
	r := true
	r = verifAnd(r, a.annotationText == w.annotationText)
	r = verifAnd(r, a.annotationTextSet == w.annotationTextSet)
	return r
}

const verifModes_axisDescr = 23
const verifPairs_axisDescr = 234

// axisDescr: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_axisDescr(b *verifB, m int) axisDescr {
	var w axisDescr
	vary := m == 0
	_ = vary
	w.attribute = attributeEnum(b.e("attribute", verifE_AttributeEnum, vary))
	w.attributeSet = true
	w.inputQuantity = b.s("inputQuantity")
	w.inputQuantitySet = true
	w.conversion = b.s("conversion")
	w.conversionSet = true
	w.maxAxisPoints = b.u16("maxAxisPoints")
	w.maxAxisPointsSet = true
	w.lowerLimit = b.f("lowerLimit")
	w.lowerLimitSet = true
	w.upperLimit = b.f("upperLimit")
	w.upperLimitSet = true
	k := m - 1
	all, rev := m == verifModes_axisDescr-2, m == verifModes_axisDescr-1
	pair, first, second, nested := m >= verifModes_axisDescr, -1, -1, m-verifModes_axisDescr-225
	if pair && nested < 0 {
		first, second = (m-verifModes_axisDescr)/15, (m-verifModes_axisDescr)%15
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 15; i++ {
		o := i
		if rev {
			o = 14 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 6 || pair && nested >= 0 && nested < 9 {
				sub := k - 0
				if all || rev {
					sub = verifModes_annotation - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
					if k != -2 {
						sub = verifModes_annotation + nested - 0
					}
				}
				_ = sub
				b.t("/begin ANNOTATION")
				w.annotation = append(w.annotation, verifMk_annotation(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin ANNOTATION")
					w.annotation = append(w.annotation, verifMk_annotation(b, -1))
				}
			}
		case 1:
			if all || rev || k == -2 || k >= 6 && k < 7 {
				sub := k - 6
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("AXIS_PTS_REF")
				w.axisPtsRef = verifMk_axisPtsRef(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 7 && k < 8 {
				sub := k - 7
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("BYTE_ORDER")
				w.byteOrder = verifMk_ByteOrder(b, sub)
			}
		case 3:
			if all || rev || k == -2 || k >= 8 && k < 9 {
				sub := k - 8
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("CURVE_AXIS_REF")
				w.curveAxisRef = verifMk_curveAxisRef(b, sub)
			}
		case 4:
			if all || rev || k == -2 || k >= 9 && k < 10 {
				sub := k - 9
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DEPOSIT")
				w.deposit = verifMk_deposit(b, sub)
			}
		case 5:
			if all || rev || k == -2 || k >= 10 && k < 11 {
				sub := k - 10
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("EXTENDED_LIMITS")
				w.extendedLimits = verifMk_extendedLimits(b, sub)
			}
		case 6:
			if all || rev || k == -2 || k >= 11 && k < 12 {
				sub := k - 11
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FIX_AXIS_PAR")
				w.fixAxisPar = verifMk_fixAxisPar(b, sub)
			}
		case 7:
			if all || rev || k == -2 || k >= 12 && k < 13 {
				sub := k - 12
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FIX_AXIS_PAR_DIST")
				w.fixAxisParDist = verifMk_fixAxisParDist(b, sub)
			}
		case 8:
			if all || rev || k == -2 || k >= 13 && k < 14 {
				sub := k - 13
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin FIX_AXIS_PAR_LIST")
				w.fixAxisParList = append(w.fixAxisParList, verifMk_fixAxisParList(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin FIX_AXIS_PAR_LIST")
					w.fixAxisParList = append(w.fixAxisParList, verifMk_fixAxisParList(b, -1))
				}
			}
		case 9:
			if all || rev || k == -2 || k >= 14 && k < 15 {
				sub := k - 14
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FORMAT")
				w.format = verifMk_format(b, sub)
			}
		case 10:
			if all || rev || k == -2 || k >= 15 && k < 16 {
				sub := k - 15
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MAX_GRAD")
				w.maxGrad = verifMk_MaxGrad(b, sub)
			}
		case 11:
			if all || rev || k == -2 || k >= 16 && k < 17 {
				sub := k - 16
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MONOTONY")
				w.monotony = verifMk_Monotony(b, sub)
			}
		case 12:
			if all || rev || k == -2 || k >= 17 && k < 18 {
				sub := k - 17
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("PHYS_UNIT")
				w.physUnit = verifMk_physUnit(b, sub)
			}
		case 13:
			if all || rev || k == -2 || k >= 18 && k < 19 {
				sub := k - 18
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("READ_ONLY")
				w.readOnly = verifMk_readOnlyKeyword(b, sub)
			}
		case 14:
			if all || rev || k == -2 || k >= 19 && k < 20 {
				sub := k - 19
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("STEP_SIZE")
				w.stepSize = verifMk_StepSize(b, sub)
			}
		}
	}
	b.t("/end AXIS_DESCR")
	return w
}
func verifEq_axisDescr(a, w axisDescr) bool {
	r := true
	r = verifAnd(r, a.attribute == w.attribute)
	r = verifAnd(r, a.attributeSet == w.attributeSet)
	r = verifAnd(r, a.inputQuantity == w.inputQuantity)
	r = verifAnd(r, a.inputQuantitySet == w.inputQuantitySet)
	r = verifAnd(r, a.conversion == w.conversion)
	r = verifAnd(r, a.conversionSet == w.conversionSet)
	r = verifAnd(r, a.maxAxisPoints == w.maxAxisPoints)
	r = verifAnd(r, a.maxAxisPointsSet == w.maxAxisPointsSet)
	r = verifAnd(r, a.lowerLimit == w.lowerLimit)
	r = verifAnd(r, a.lowerLimitSet == w.lowerLimitSet)
	r = verifAnd(r, a.upperLimit == w.upperLimit)
	r = verifAnd(r, a.upperLimitSet == w.upperLimitSet)
	r = verifAnd(r, len(a.annotation) == len(w.annotation))
	for i := 0; i < len(a.annotation) && i < len(w.annotation); i++ {
		r = verifAnd(r, verifEq_annotation(a.annotation[i], w.annotation[i]))
	}
	r = verifAnd(r, verifEq_axisPtsRef(a.axisPtsRef, w.axisPtsRef))
	r = verifAnd(r, verifEq_ByteOrder(a.byteOrder, w.byteOrder))
	r = verifAnd(r, verifEq_curveAxisRef(a.curveAxisRef, w.curveAxisRef))
	r = verifAnd(r, verifEq_deposit(a.deposit, w.deposit))
	r = verifAnd(r, verifEq_extendedLimits(a.extendedLimits, w.extendedLimits))
	r = verifAnd(r, verifEq_fixAxisPar(a.fixAxisPar, w.fixAxisPar))
	r = verifAnd(r, verifEq_fixAxisParDist(a.fixAxisParDist, w.fixAxisParDist))
	r = verifAnd(r, len(a.fixAxisParList) == len(w.fixAxisParList))
	for i := 0; i < len(a.fixAxisParList) && i < len(w.fixAxisParList); i++ {
		r = verifAnd(r, verifEq_fixAxisParList(a.fixAxisParList[i], w.fixAxisParList[i]))
	}
	r = verifAnd(r, verifEq_format(a.format, w.format))
	r = verifAnd(r, verifEq_MaxGrad(a.maxGrad, w.maxGrad))
	r = verifAnd(r, verifEq_Monotony(a.monotony, w.monotony))
	r = verifAnd(r, verifEq_physUnit(a.physUnit, w.physUnit))
	r = verifAnd(r, verifEq_readOnlyKeyword(a.readOnly, w.readOnly))
	r = verifAnd(r, verifEq_StepSize(a.stepSize, w.stepSize))
	return r
}

const verifModes_axisPtsRef = 1

// axisPtsRef: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_axisPtsRef(b *verifB, m int) axisPtsRef {
	var w axisPtsRef
	vary := m == 0
	_ = vary
	w.axisPoints = b.s("axisPoints")
	w.axisPointsSet = true
	return w
}
func verifEq_axisPtsRef(a, w axisPtsRef) bool {
	r := true
	r = verifAnd(r, a.axisPoints == w.axisPoints)
	r = verifAnd(r, a.axisPointsSet == w.axisPointsSet)
	return r
}

const verifModes_bitMask = 1

// bitMask: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_bitMask(b *verifB, m int) bitMask {
	var w bitMask
	vary := m == 0
	_ = vary
	w.mask = b.s("mask")
	w.maskSet = true
	return w
}
func verifEq_bitMask(a, w bitMask) bool {
	r := true
	r = verifAnd(r, a.mask == w.mask)
	r = verifAnd(r, a.maskSet == w.maskSet)
	return r
}

const verifModes_bitOperation = 6
const verifPairs_bitOperation = 9

// bitOperation: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_bitOperation(b *verifB, m int) bitOperation {
	var w bitOperation
	vary := m == 0
	_ = vary
	k := m - 1
	all, rev := m == verifModes_bitOperation-2, m == verifModes_bitOperation-1
	pair, first, second, nested := m >= verifModes_bitOperation, -1, -1, m-verifModes_bitOperation-9
	if pair && nested < 0 {
		first, second = (m-verifModes_bitOperation)/3, (m-verifModes_bitOperation)%3
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 3; i++ {
		o := i
		if rev {
			o = 2 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("LEFT_SHIFT")
				w.leftShift = verifMk_LeftShift(b, sub)
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 2 {
				sub := k - 1
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("RIGHT_SHIFT")
				w.rightShift = verifMk_RightShift(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 2 && k < 3 {
				sub := k - 2
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SIGN_EXTEND")
				w.signExtend = verifMk_SignExtendKeyword(b, sub)
			}
		}
	}
	b.t("/end BIT_OPERATION")
	return w
}
func verifEq_bitOperation(a, w bitOperation) bool {
	r := true
	r = verifAnd(r, verifEq_LeftShift(a.leftShift, w.leftShift))
	r = verifAnd(r, verifEq_RightShift(a.rightShift, w.rightShift))
	r = verifAnd(r, verifEq_SignExtendKeyword(a.signExtend, w.signExtend))
	return r
}

const verifModes_curveAxisRef = 1

// curveAxisRef: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_curveAxisRef(b *verifB, m int) curveAxisRef {
	var w curveAxisRef
	vary := m == 0
	_ = vary
	w.curveAxis = b.s("curveAxis")
	w.curveAxisSet = true
	return w
}
func verifEq_curveAxisRef(a, w curveAxisRef) bool {
	r := true
	r = verifAnd(r, a.curveAxis == w.curveAxis)
	r = verifAnd(r, a.curveAxisSet == w.curveAxisSet)
	return r
}

const verifModes_deposit = 1

// deposit: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_deposit(b *verifB, m int) deposit {
	var w deposit
	vary := m == 0
	_ = vary
	w.mode = modeEnum(b.e("mode", verifE_ModeEnum, vary))
	w.modeSet = true
	return w
}
func verifEq_deposit(a, w deposit) bool {
	r := true
	r = verifAnd(r, a.mode == w.mode)
	r = verifAnd(r, a.modeSet == w.modeSet)
	return r
}

const verifModes_discreteKeyword = 1

// discreteKeyword: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_discreteKeyword(b *verifB, m int) discreteKeyword {
	var w discreteKeyword
	vary := m == 0
	_ = vary
	w.value, w.valueSet = true, true
	return w
}
func verifEq_discreteKeyword(a, w discreteKeyword) bool {
	r := true
	r = verifAnd(r, a.value == w.value)
	r = verifAnd(r, a.valueSet == w.valueSet)
	return r
}

const verifModes_ecuAddressExtension = 1

// ecuAddressExtension: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_ecuAddressExtension(b *verifB, m int) ecuAddressExtension {
	var w ecuAddressExtension
	vary := m == 0
	_ = vary
	w.extension = b.i16("extension")
	w.extensionSet = true
	return w
}
func verifEq_ecuAddressExtension(a, w ecuAddressExtension) bool {
	r := true
	r = verifAnd(r, a.extension == w.extension)
	r = verifAnd(r, a.extensionSet == w.extensionSet)
	return r
}

const verifModes_errorMask = 1

// errorMask: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_errorMask(b *verifB, m int) errorMask {
	var w errorMask
	vary := m == 0
	_ = vary
	w.mask = b.s("mask")
	w.maskSet = true
	return w
}
func verifEq_errorMask(a, w errorMask) bool {
	r := true
	r = verifAnd(r, a.mask == w.mask)
	r = verifAnd(r, a.maskSet == w.maskSet)
	return r
}

const verifModes_extendedLimits = 1

// extendedLimits: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_extendedLimits(b *verifB, m int) extendedLimits {
	var w extendedLimits
	vary := m == 0
	_ = vary
	w.lowerLimit = b.f("lowerLimit")
	w.lowerLimitSet = true
	w.upperLimit = b.f("upperLimit")
	w.upperLimitSet = true
	return w
}
func verifEq_extendedLimits(a, w extendedLimits) bool {
	r := true
	r = verifAnd(r, a.lowerLimit == w.lowerLimit)
	r = verifAnd(r, a.lowerLimitSet == w.lowerLimitSet)
	r = verifAnd(r, a.upperLimit == w.upperLimit)
	r = verifAnd(r, a.upperLimitSet == w.upperLimitSet)
	return r
}

const verifModes_fixAxisPar = 1

// fixAxisPar: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_fixAxisPar(b *verifB, m int) fixAxisPar {
	var w fixAxisPar
	vary := m == 0
	_ = vary
	w.offset = b.i16("offset")
	w.offsetSet = true
	w.shift = b.i16("shift")
	w.shiftSet = true
	w.numberapo = b.u16("numberapo")
	w.numberapoSet = true
	return w
}
func verifEq_fixAxisPar(a, w fixAxisPar) bool {
	r := true
	r = verifAnd(r, a.offset == w.offset)
	r = verifAnd(r, a.offsetSet == w.offsetSet)
	r = verifAnd(r, a.shift == w.shift)
	r = verifAnd(r, a.shiftSet == w.shiftSet)
	r = verifAnd(r, a.numberapo == w.numberapo)
	r = verifAnd(r, a.numberapoSet == w.numberapoSet)
	return r
}

const verifModes_fixAxisParDist = 1

// fixAxisParDist: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_fixAxisParDist(b *verifB, m int) fixAxisParDist {
	var w fixAxisParDist
	vary := m == 0
	_ = vary
	w.offset = b.i16("offset")
	w.offsetSet = true
	w.distance = b.i16("distance")
	w.distanceSet = true
	w.numberapo = b.u16("numberapo")
	w.numberapoSet = true
	return w
}
func verifEq_fixAxisParDist(a, w fixAxisParDist) bool {
	r := true
	r = verifAnd(r, a.offset == w.offset)
	r = verifAnd(r, a.offsetSet == w.offsetSet)
	r = verifAnd(r, a.distance == w.distance)
	r = verifAnd(r, a.distanceSet == w.distanceSet)
	r = verifAnd(r, a.numberapo == w.numberapo)
	r = verifAnd(r, a.numberapoSet == w.numberapoSet)
	return r
}

const verifModes_fixAxisParList = 1

// fixAxisParList: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_fixAxisParList(b *verifB, m int) fixAxisParList {
	var w fixAxisParList
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.axisPtsValue = append(w.axisPtsValue, b.f("axisPtsValue"))
	}
	w.axisPtsValueSet = true
	b.t("/end FIX_AXIS_PAR_LIST")
	return w
}
func verifEq_fixAxisParList(a, w fixAxisParList) bool {
	r := true
	r = verifAnd(r, len(a.axisPtsValue) == len(w.axisPtsValue))
	for i := 0; i < len(a.axisPtsValue) && i < len(w.axisPtsValue); i++ {
		r = verifAnd(r, a.axisPtsValue[i] == w.axisPtsValue[i])
	}
	r = verifAnd(r, a.axisPtsValueSet == w.axisPtsValueSet)
	return r
}

const verifModes_format = 1

// format: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_format(b *verifB, m int) format {
	var w format
	vary := m == 0
	_ = vary
	w.formatString = b.s("formatString")
	w.formatStringSet = true
	return w
}
func verifEq_format(a, w format) bool {
	r := true
	r = verifAnd(r, a.formatString == w.formatString)
	r = verifAnd(r, a.formatStringSet == w.formatStringSet)
	return r
}

const verifModes_guardRailsKeyword = 1

// guardRailsKeyword: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_guardRailsKeyword(b *verifB, m int) guardRailsKeyword {
	var w guardRailsKeyword
	vary := m == 0
	_ = vary
	w.value, w.valueSet = true, true
	return w
}
func verifEq_guardRailsKeyword(a, w guardRailsKeyword) bool {
	r := true
	r = verifAnd(r, a.value == w.value)
	r = verifAnd(r, a.valueSet == w.valueSet)
	return r
}

const verifModes_layout = 1

// layout: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_layout(b *verifB, m int) layout {
	var w layout
	vary := m == 0
	_ = vary
	w.indexMode = indexModeEnum(b.e("indexMode", verifE_IndexModeEnum, vary))
	w.indexModeSet = true
	return w
}
func verifEq_layout(a, w layout) bool {
	r := true
	r = verifAnd(r, a.indexMode == w.indexMode)
	r = verifAnd(r, a.indexModeSet == w.indexModeSet)
	return r
}

const verifModes_modelLink = 1

// modelLink: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_modelLink(b *verifB, m int) modelLink {
	var w modelLink
	vary := m == 0
	_ = vary
	w.modelName = b.s("modelName")
	w.modelNameSet = true
	return w
}
func verifEq_modelLink(a, w modelLink) bool {
	r := true
	r = verifAnd(r, a.modelName == w.modelName)
	r = verifAnd(r, a.modelNameSet == w.modelNameSet)
	return r
}

const verifModes_physUnit = 1

// physUnit: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_physUnit(b *verifB, m int) physUnit {
	var w physUnit
	vary := m == 0
	_ = vary
	w.unit = b.s("unit")
	w.unitSet = true
	return w
}
func verifEq_physUnit(a, w physUnit) bool {
	r := true
	r = verifAnd(r, a.unit == w.unit)
	r = verifAnd(r, a.unitSet == w.unitSet)
	return r
}

const verifModes_readOnlyKeyword = 1

// readOnlyKeyword: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_readOnlyKeyword(b *verifB, m int) readOnlyKeyword {
	var w readOnlyKeyword
	vary := m == 0
	_ = vary
	w.value, w.valueSet = true, true
	return w
}
func verifEq_readOnlyKeyword(a, w readOnlyKeyword) bool {
	r := true
	r = verifAnd(r, a.value == w.value)
	r = verifAnd(r, a.valueSet == w.valueSet)
	return r
}

const verifModes_readWriteKeyword = 1

// readWriteKeyword: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_readWriteKeyword(b *verifB, m int) readWriteKeyword {
	var w readWriteKeyword
	vary := m == 0
	_ = vary
	w.value, w.valueSet = true, true
	return w
}
func verifEq_readWriteKeyword(a, w readWriteKeyword) bool {
	r := true
	r = verifAnd(r, a.value == w.value)
	r = verifAnd(r, a.valueSet == w.valueSet)
	return r
}

const verifModes_refCharacteristic = 1

// refCharacteristic: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_refCharacteristic(b *verifB, m int) refCharacteristic {
	var w refCharacteristic
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.identifier = append(w.identifier, b.s("identifier"))
	}
	w.identifierSet = true
	b.t("/end REF_CHARACTERISTIC")
	return w
}
func verifEq_refCharacteristic(a, w refCharacteristic) bool {
	r := true
	r = verifAnd(r, len(a.identifier) == len(w.identifier))
	for i := 0; i < len(a.identifier) && i < len(w.identifier); i++ {
		r = verifAnd(r, a.identifier[i] == w.identifier[i])
	}
	r = verifAnd(r, a.identifierSet == w.identifierSet)
	return r
}

const verifModes_refMemorySegment = 1

// refMemorySegment: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_refMemorySegment(b *verifB, m int) refMemorySegment {
	var w refMemorySegment
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	return w
}
func verifEq_refMemorySegment(a, w refMemorySegment) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	return r
}

const verifModes_refUnit = 1

// refUnit: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_refUnit(b *verifB, m int) refUnit {
	var w refUnit
	vary := m == 0
	_ = vary
	w.unit = b.s("unit")
	w.unitSet = true
	return w
}
func verifEq_refUnit(a, w refUnit) bool {
	r := true
	r = verifAnd(r, a.unit == w.unit)
	r = verifAnd(r, a.unitSet == w.unitSet)
	return r
}

const verifModes_symbolLink = 1

// symbolLink: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_symbolLink(b *verifB, m int) symbolLink {
	var w symbolLink
	vary := m == 0
	_ = vary
	w.symbolName = b.s("symbolName")
	w.symbolNameSet = true
	w.offset = b.i32("offset")
	w.offsetSet = true
	return w
}
func verifEq_symbolLink(a, w symbolLink) bool {
	r := true
	r = verifAnd(r, a.symbolName == w.symbolName)
	r = verifAnd(r, a.symbolNameSet == w.symbolNameSet)
	r = verifAnd(r, a.offset == w.offset)
	r = verifAnd(r, a.offsetSet == w.offsetSet)
	return r
}

const verifModes_version = 1

// version: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_version(b *verifB, m int) version {
	var w version
	vary := m == 0
	_ = vary
	w.versionIdentifier = b.s("versionIdentifier")
	w.versionIdentifierSet = true
	return w
}
func verifEq_version(a, w version) bool {
	r := true
	r = verifAnd(r, a.versionIdentifier == w.versionIdentifier)
	r = verifAnd(r, a.versionIdentifierSet == w.versionIdentifierSet)
	return r
}

var verifE_EncodingEnum = []string{"UTF8", "UTF16", "UTF32"}
var verifE_DataTypeEnum = []string{"UBYTE", "SBYTE", "UWORD", "SWORD", "ULONG", "SLONG", "A_UINT64", "A_INT64", "FLOAT16_IEEE", "FLOAT32_IEEE", "FLOAT64_IEEE"}
var verifE_DataSizeEnum = []string{"BYTE", "WORD", "LONG"}
var verifE_AddrTypeEnum = []string{"PBYTE", "PWORD", "PLONG", "PLONGLONG", "DIRECT"}
var verifE_ByteOrderEnum = []string{"LITTLE_ENDIAN", "BIG_ENDIAN", "MSB_LAST", "MSB_FIRST", "MSB_FIRST_MSW_LAST", "MSB_LAST_MSW_FIRST"}
var verifE_IndexOrderEnum = []string{"INDEX_INCR", "INDEX_DECR"}
var verifE_AttributeEnum = []string{"CURVE_AXIS", "COM_AXIS", "FIX_AXIS", "RES_AXIS", "STD_AXIS", "INTERN", "EXTERN"}
var verifE_CalibrationAccessEnum = []string{"CALIBRATION", "NO_CALIBRATION", "NOT_IN_MCD_SYSTEM", "OFFLINE_CALIBRATION"}
var verifE_TypeEnum = []string{"ASCII", "CURVE", "MAP", "CUBOID", "CUBE_4", "CUBE_5", "VAL_BLK", "VALUE", "DERIVED", "EXTENDED_SI"}
var verifE_ConversionTypeEnum = []string{"IDENTICAL", "FORM", "LINEAR", "RAT_FUNC", "TAB_INTP", "TAB_NOINTP", "TAB_VERB"}
var verifE_IndexModeEnum = []string{"ALTERNATE_CURVES", "ALTERNATE_WITH_X", "ALTERNATE_WITH_Y", "COLUMN_DIR", "ROW_DIR"}
var verifE_ModeEnum = []string{"ABSOLUTE", "DIFFERENCE"}
var verifE_PrgTypeEnum = []string{"PRG_CODE", "PRG_DATA", "PRG_RESERVED", "CALIBRATION_VARIABLES", "CODE", "DATA", "EXCLUDE_FROM_FLASH", "OFFLINE_DATA", "RESERVED", "SERAM", "VARIABLES"}
var verifE_MemoryTypeEnum = []string{"EEPROM", "EPROM", "FLASH", "RAM", "ROM", "REGISTER", "NOT_IN_ECU"}
var verifE_MonotonyTypeEnum = []string{"MON_DECREASE", "MON_INCREASE", "STRICT_DECREASE", "STRICT_INCREASE", "MONOTONOUS", "STRICT_MON", "NOT_MON"}
var verifE_TagEnum = []string{"NUMERIC"}
var verifE_TriggerEnum = []string{"ON_CHANGE", "ON_USER_REQUEST"}

// every keyword that begins or ends an object or an option
var verifKeywords = []string{
	"/begin A2ML",
	"/begin ANNOTATION",
	"/begin ANNOTATION_TEXT",
	"/begin AR_COMPONENT",
	"/begin AXIS_DESCR",
	"/begin AXIS_PTS",
	"/begin BIT_OPERATION",
	"/begin BLOB",
	"/begin CALIBRATION_HANDLE",
	"/begin CALIBRATION_METHOD",
	"/begin CHARACTERISTIC",
	"/begin COMPU_METHOD",
	"/begin COMPU_TAB",
	"/begin COMPU_VTAB",
	"/begin COMPU_VTAB_RANGE",
	"/begin DEF_CHARACTERISTIC",
	"/begin DEPENDENT_CHARACTERISTIC",
	"/begin FIX_AXIS_PAR_LIST",
	"/begin FORMULA",
	"/begin FRAME",
	"/begin FUNCTION",
	"/begin FUNCTION_LIST",
	"/begin GROUP",
	"/begin HEADER",
	"/begin IF_DATA",
	"/begin INSTANCE",
	"/begin IN_MEASUREMENT",
	"/begin LOC_MEASUREMENT",
	"/begin MAP_LIST",
	"/begin MEASUREMENT",
	"/begin MEMORY_LAYOUT",
	"/begin MEMORY_SEGMENT",
	"/begin MODULE",
	"/begin MOD_COMMON",
	"/begin MOD_PAR",
	"/begin OUT_MEASUREMENT",
	"/begin OVERWRITE",
	"/begin PROJECT",
	"/begin RECORD_LAYOUT",
	"/begin REF_CHARACTERISTIC",
	"/begin REF_GROUP",
	"/begin REF_MEASUREMENT",
	"/begin STRUCTURE_COMPONENT",
	"/begin SUB_FUNCTION",
	"/begin SUB_GROUP",
	"/begin TRANSFORMER",
	"/begin TRANSFORMER_IN_OBJECTS",
	"/begin TRANSFORMER_OUT_OBJECTS",
	"/begin TYPEDEF_AXIS",
	"/begin TYPEDEF_BLOB",
	"/begin TYPEDEF_CHARACTERISTIC",
	"/begin TYPEDEF_MEASUREMENT",
	"/begin TYPEDEF_STRUCTURE",
	"/begin UNIT",
	"/begin USER_RIGHTS",
	"/begin VARIANT_CODING",
	"/begin VAR_ADDRESS",
	"/begin VAR_CHARACTERISTIC",
	"/begin VAR_CRITERION",
	"/begin VAR_FORBIDDEN_COMB",
	"/begin VIRTUAL",
	"/begin VIRTUAL_CHARACTERISTIC",
	"/end A2ML",
	"/end ANNOTATION",
	"/end ANNOTATION_TEXT",
	"/end AR_COMPONENT",
	"/end AXIS_DESCR",
	"/end AXIS_PTS",
	"/end BIT_OPERATION",
	"/end BLOB",
	"/end CALIBRATION_HANDLE",
	"/end CALIBRATION_METHOD",
	"/end CHARACTERISTIC",
	"/end COMPU_METHOD",
	"/end COMPU_TAB",
	"/end COMPU_VTAB",
	"/end COMPU_VTAB_RANGE",
	"/end DEF_CHARACTERISTIC",
	"/end DEPENDENT_CHARACTERISTIC",
	"/end FIX_AXIS_PAR_LIST",
	"/end FORMULA",
	"/end FRAME",
	"/end FUNCTION",
	"/end FUNCTION_LIST",
	"/end GROUP",
	"/end HEADER",
	"/end IF_DATA",
	"/end INSTANCE",
	"/end IN_MEASUREMENT",
	"/end LOC_MEASUREMENT",
	"/end MAP_LIST",
	"/end MEASUREMENT",
	"/end MEMORY_LAYOUT",
	"/end MEMORY_SEGMENT",
	"/end MODULE",
	"/end MOD_COMMON",
	"/end MOD_PAR",
	"/end OUT_MEASUREMENT",
	"/end OVERWRITE",
	"/end PROJECT",
	"/end RECORD_LAYOUT",
	"/end REF_CHARACTERISTIC",
	"/end REF_GROUP",
	"/end REF_MEASUREMENT",
	"/end STRUCTURE_COMPONENT",
	"/end SUB_FUNCTION",
	"/end SUB_GROUP",
	"/end TRANSFORMER",
	"/end TRANSFORMER_IN_OBJECTS",
	"/end TRANSFORMER_OUT_OBJECTS",
	"/end TYPEDEF_AXIS",
	"/end TYPEDEF_BLOB",
	"/end TYPEDEF_CHARACTERISTIC",
	"/end TYPEDEF_MEASUREMENT",
	"/end TYPEDEF_STRUCTURE",
	"/end UNIT",
	"/end USER_RIGHTS",
	"/end VARIANT_CODING",
	"/end VAR_ADDRESS",
	"/end VAR_CHARACTERISTIC",
	"/end VAR_CRITERION",
	"/end VAR_FORBIDDEN_COMB",
	"/end VIRTUAL",
	"/end VIRTUAL_CHARACTERISTIC",
	"A2ML_VERSION",
	"ADDRESS_TYPE",
	"ADDR_EPK",
	"ALIGNMENT_BYTE",
	"ALIGNMENT_FLOAT16_IEEE",
	"ALIGNMENT_FLOAT32_IEEE",
	"ALIGNMENT_FLOAT64_IEEE",
	"ALIGNMENT_INT64",
	"ALIGNMENT_LONG",
	"ALIGNMENT_WORD",
	"ANNOTATION_LABEL",
	"ANNOTATION_ORIGIN",
	"ARRAY_SIZE",
	"AR_PROTOTYPE_OF",
	"ASAP2_VERSION",
	"AXIS_PTS_4",
	"AXIS_PTS_5",
	"AXIS_PTS_REF",
	"AXIS_PTS_X",
	"AXIS_PTS_Y",
	"AXIS_PTS_Z",
	"AXIS_RESCALE_X",
	"BIT_MASK",
	"BYTE_ORDER",
	"CALIBRATION_ACCESS",
	"CALIBRATION_HANDLE_TEXT",
	"COEFFS",
	"COEFFS_LINEAR",
	"COMPARISON_QUANTITY",
	"COMPU_TAB_REF",
	"CONSISTENT_EXCHANGE",
	"CONVERSION",
	"CPU_TYPE",
	"CURVE_AXIS_REF",
	"CUSTOMER",
	"CUSTOMER_NO",
	"DATA_SIZE",
	"DEFAULT_VALUE",
	"DEFAULT_VALUE_NUMERIC",
	"DEPOSIT",
	"DISCRETE",
	"DISPLAY_IDENTIFIER",
	"DIST_OP_4",
	"DIST_OP_5",
	"DIST_OP_X",
	"DIST_OP_Y",
	"DIST_OP_Z",
	"ECU",
	"ECU_ADDRESS",
	"ECU_ADDRESS_EXTENSION",
	"ECU_CALIBRATION_OFFSET",
	"ENCODING",
	"EPK",
	"ERROR_MASK",
	"EXTENDED_LIMITS",
	"FIX_AXIS_PAR",
	"FIX_AXIS_PAR_DIST",
	"FIX_NO_AXIS_PTS_4",
	"FIX_NO_AXIS_PTS_5",
	"FIX_NO_AXIS_PTS_X",
	"FIX_NO_AXIS_PTS_Y",
	"FIX_NO_AXIS_PTS_Z",
	"FNC_VALUES",
	"FORMAT",
	"FORMULA_INV",
	"FRAME_MEASUREMENT",
	"FUNCTION_VERSION",
	"GUARD_RAILS",
	"IDENTIFICATION",
	"INPUT_QUANTITY",
	"LAYOUT",
	"LEFT_SHIFT",
	"LIMITS",
	"MATRIX_DIM",
	"MAX_GRAD",
	"MAX_REFRESH",
	"MODEL_LINK",
	"MONOTONY",
	"NO_AXIS_PTS_4",
	"NO_AXIS_PTS_5",
	"NO_AXIS_PTS_X",
	"NO_AXIS_PTS_Y",
	"NO_AXIS_PTS_Z",
	"NO_OF_INTERFACES",
	"NO_RESCALE_X",
	"NUMBER",
	"OFFSET_4",
	"OFFSET_5",
	"OFFSET_X",
	"OFFSET_Y",
	"OFFSET_Z",
	"PHONE_NO",
	"PHYS_UNIT",
	"PROJECT_NO",
	"READ_ONLY",
	"READ_WRITE",
	"REF_MEMORY_SEGMENT",
	"REF_UNIT",
	"RESERVED",
	"RIGHT_SHIFT",
	"RIP_ADDR_4",
	"RIP_ADDR_5",
	"RIP_ADDR_W",
	"RIP_ADDR_X",
	"RIP_ADDR_Y",
	"RIP_ADDR_Z",
	"ROOT",
	"SHIFT_OP_4",
	"SHIFT_OP_5",
	"SHIFT_OP_X",
	"SHIFT_OP_Y",
	"SHIFT_OP_Z",
	"SIGN_EXTEND",
	"SI_EXPONENTS",
	"SRC_ADDR_4",
	"SRC_ADDR_5",
	"SRC_ADDR_X",
	"SRC_ADDR_Y",
	"SRC_ADDR_Z",
	"STATIC_ADDRESS_OFFSETS",
	"STATIC_RECORD_LAYOUT",
	"STATUS_STRING_REF",
	"STEP_SIZE",
	"SUPPLIER",
	"SYMBOL_LINK",
	"SYMBOL_TYPE_LINK",
	"SYSTEM_CONSTANT",
	"UNIT_CONVERSION",
	"USER",
	"VAR_MEASUREMENT",
	"VAR_NAMING",
	"VAR_SELECTION_CHARACTERISTIC",
	"VAR_SEPARATOR",
	"VERSION",
}
