// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_axisPts = 26
const verifPairs_axisPts = 333

// axisPts: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_axisPts(b *verifB, m int) axisPts {
	var w axisPts
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.longIdentifier = b.s("longIdentifier")
	w.longIdentifierSet = true
	w.address = b.s("address")
	w.addressSet = true
	w.inputQuantity = b.s("inputQuantity")
	w.inputQuantitySet = true
	w.depositIdent = b.s("depositIdent")
	w.depositIdentSet = true
	w.maxDiff = b.f("maxDiff")
	w.maxDiffSet = true
	w.conversion = b.s("conversion")
	w.conversionSet = true
	w.maxAxisPoints = b.u16("maxAxisPoints")
	w.maxAxisPointsSet = true
	w.lowerLimit = b.f("lowerLimit")
	w.lowerLimitSet = true
	w.upperLimit = b.f("upperLimit")
	w.upperLimitSet = true
	k := m - 1
	all, rev := m == verifModes_axisPts-2, m == verifModes_axisPts-1
	pair, first, second, nested := m >= verifModes_axisPts, -1, -1, m-verifModes_axisPts-324
	if pair && nested < 0 {
		first, second = (m-verifModes_axisPts)/18, (m-verifModes_axisPts)%18
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 18; i++ {
		o := i
		if rev {
			o = 17 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 6 || pair && nested >= 0 && nested < 9 {
				sub := k - 0
				if all || rev {
					sub = verifModes_annotation - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
					if k != -2 {
						sub = verifModes_annotation + nested - 0
					}
				}
				_ = sub
				b.t("/begin ANNOTATION")
				w.annotation = append(w.annotation, verifMk_annotation(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin ANNOTATION")
					w.annotation = append(w.annotation, verifMk_annotation(b, -1))
				}
			}
		case 1:
			if all || rev || k == -2 || k >= 6 && k < 7 {
				sub := k - 6
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("BYTE_ORDER")
				w.byteOrder = verifMk_ByteOrder(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 7 && k < 8 {
				sub := k - 7
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("CALIBRATION_ACCESS")
				w.calibrationAccess = calibrationAccessEnum(b.e("calibrationAccess", verifE_CalibrationAccessEnum, sub == 0))
			}
		case 3:
			if all || rev || k == -2 || k >= 8 && k < 9 {
				sub := k - 8
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DEPOSIT")
				w.deposit = verifMk_deposit(b, sub)
			}
		case 4:
			if all || rev || k == -2 || k >= 9 && k < 10 {
				sub := k - 9
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DISPLAY_IDENTIFIER")
				w.displayIdentifier = verifMk_DisplayIdentifier(b, sub)
			}
		case 5:
			if all || rev || k == -2 || k >= 10 && k < 11 {
				sub := k - 10
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ECU_ADDRESS_EXTENSION")
				w.ecuAddressExtension = verifMk_ecuAddressExtension(b, sub)
			}
		case 6:
			if all || rev || k == -2 || k >= 11 && k < 12 {
				sub := k - 11
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("EXTENDED_LIMITS")
				w.extendedLimits = verifMk_extendedLimits(b, sub)
			}
		case 7:
			if all || rev || k == -2 || k >= 12 && k < 13 {
				sub := k - 12
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FORMAT")
				w.format = verifMk_format(b, sub)
			}
		case 8:
			if all || rev || k == -2 || k >= 13 && k < 14 {
				sub := k - 13
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin FUNCTION_LIST")
				w.functionList = append(w.functionList, verifMk_FunctionList(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin FUNCTION_LIST")
					w.functionList = append(w.functionList, verifMk_FunctionList(b, -1))
				}
			}
		case 9:
			if all || rev || k == -2 || k >= 14 && k < 15 {
				sub := k - 14
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("GUARD_RAILS")
				w.guardRails = verifMk_guardRailsKeyword(b, sub)
			}
		case 10:
			if all || rev || k == -2 || k >= 15 && k < 16 {
				sub := k - 15
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin IF_DATA")
				w.ifData = append(w.ifData, verifMk_IfData(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin IF_DATA")
					w.ifData = append(w.ifData, verifMk_IfData(b, -1))
				}
			}
		case 11:
			if all || rev || k == -2 || k >= 16 && k < 17 {
				sub := k - 16
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MODEL_LINK")
				w.modelLink = verifMk_modelLink(b, sub)
			}
		case 12:
			if all || rev || k == -2 || k >= 17 && k < 18 {
				sub := k - 17
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MONOTONY")
				w.monotony = verifMk_Monotony(b, sub)
			}
		case 13:
			if all || rev || k == -2 || k >= 18 && k < 19 {
				sub := k - 18
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("PHYS_UNIT")
				w.physUnit = verifMk_physUnit(b, sub)
			}
		case 14:
			if all || rev || k == -2 || k >= 19 && k < 20 {
				sub := k - 19
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("READ_ONLY")
				w.readOnly = verifMk_readOnlyKeyword(b, sub)
			}
		case 15:
			if all || rev || k == -2 || k >= 20 && k < 21 {
				sub := k - 20
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("REF_MEMORY_SEGMENT")
				w.refMemorySegment = verifMk_refMemorySegment(b, sub)
			}
		case 16:
			if all || rev || k == -2 || k >= 21 && k < 22 {
				sub := k - 21
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("STEP_SIZE")
				w.stepSize = verifMk_StepSize(b, sub)
			}
		case 17:
			if all || rev || k == -2 || k >= 22 && k < 23 {
				sub := k - 22
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SYMBOL_LINK")
				w.symbolLink = verifMk_symbolLink(b, sub)
			}
		}
	}
	b.t("/end AXIS_PTS")
	return w
}
func verifEq_axisPts(a, w axisPts) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.longIdentifier == w.longIdentifier)
	r = verifAnd(r, a.longIdentifierSet == w.longIdentifierSet)
	r = verifAnd(r, a.address == w.address)
	r = verifAnd(r, a.addressSet == w.addressSet)
	r = verifAnd(r, a.inputQuantity == w.inputQuantity)
	r = verifAnd(r, a.inputQuantitySet == w.inputQuantitySet)
	r = verifAnd(r, a.depositIdent == w.depositIdent)
	r = verifAnd(r, a.depositIdentSet == w.depositIdentSet)
	r = verifAnd(r, a.maxDiff == w.maxDiff)
	r = verifAnd(r, a.maxDiffSet == w.maxDiffSet)
	r = verifAnd(r, a.conversion == w.conversion)
	r = verifAnd(r, a.conversionSet == w.conversionSet)
	r = verifAnd(r, a.maxAxisPoints == w.maxAxisPoints)
	r = verifAnd(r, a.maxAxisPointsSet == w.maxAxisPointsSet)
	r = verifAnd(r, a.lowerLimit == w.lowerLimit)
	r = verifAnd(r, a.lowerLimitSet == w.lowerLimitSet)
	r = verifAnd(r, a.upperLimit == w.upperLimit)
	r = verifAnd(r, a.upperLimitSet == w.upperLimitSet)
	r = verifAnd(r, len(a.annotation) == len(w.annotation))
	for i := 0; i < len(a.annotation) && i < len(w.annotation); i++ {
		r = verifAnd(r, verifEq_annotation(a.annotation[i], w.annotation[i]))
	}
	r = verifAnd(r, verifEq_ByteOrder(a.byteOrder, w.byteOrder))
	r = verifAnd(r, a.calibrationAccess == w.calibrationAccess)
	r = verifAnd(r, verifEq_deposit(a.deposit, w.deposit))
	r = verifAnd(r, verifEq_DisplayIdentifier(a.displayIdentifier, w.displayIdentifier))
	r = verifAnd(r, verifEq_ecuAddressExtension(a.ecuAddressExtension, w.ecuAddressExtension))
	r = verifAnd(r, verifEq_extendedLimits(a.extendedLimits, w.extendedLimits))
	r = verifAnd(r, verifEq_format(a.format, w.format))
	r = verifAnd(r, len(a.functionList) == len(w.functionList))
	for i := 0; i < len(a.functionList) && i < len(w.functionList); i++ {
		r = verifAnd(r, verifEq_FunctionList(a.functionList[i], w.functionList[i]))
	}
	r = verifAnd(r, verifEq_guardRailsKeyword(a.guardRails, w.guardRails))
	r = verifAnd(r, len(a.ifData) == len(w.ifData))
	for i := 0; i < len(a.ifData) && i < len(w.ifData); i++ {
		r = verifAnd(r, verifEq_IfData(a.ifData[i], w.ifData[i]))
	}
	r = verifAnd(r, verifEq_Monotony(a.monotony, w.monotony))
	r = verifAnd(r, verifEq_modelLink(a.modelLink, w.modelLink))
	r = verifAnd(r, verifEq_physUnit(a.physUnit, w.physUnit))
	r = verifAnd(r, verifEq_readOnlyKeyword(a.readOnly, w.readOnly))
	r = verifAnd(r, verifEq_refMemorySegment(a.refMemorySegment, w.refMemorySegment))
	r = verifAnd(r, verifEq_StepSize(a.stepSize, w.stepSize))
	r = verifAnd(r, verifEq_symbolLink(a.symbolLink, w.symbolLink))
	return r
}
