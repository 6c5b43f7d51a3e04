// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_instance = 29
const verifPairs_instance = 202

// instance: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_instance(b *verifB, m int) instance {
	var w instance
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.LongIdentifier = b.s("LongIdentifier")
	w.longIdentifierSet = true
	w.typeDefName = b.s("typeDefName")
	w.typeDefNameSet = true
	w.address = b.s("address")
	w.addressSet = true
	k := m - 1
	all, rev := m == verifModes_instance-2, m == verifModes_instance-1
	pair, first, second, nested := m >= verifModes_instance, -1, -1, m-verifModes_instance-144
	if pair && nested < 0 {
		first, second = (m-verifModes_instance)/12, (m-verifModes_instance)%12
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 12; i++ {
		o := i
		if rev {
			o = 11 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 6 || pair && nested >= 0 && nested < 9 {
				sub := k - 0
				if all || rev {
					sub = verifModes_annotation - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
					if k != -2 {
						sub = verifModes_annotation + nested - 0
					}
				}
				_ = sub
				b.t("/begin ANNOTATION")
				w.annotation = append(w.annotation, verifMk_annotation(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin ANNOTATION")
					w.annotation = append(w.annotation, verifMk_annotation(b, -1))
				}
			}
		case 1:
			if all || rev || k == -2 || k >= 6 && k < 7 {
				sub := k - 6
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ADDRESS_TYPE")
				w.addressType = AddrTypeEnum(b.e("addressType", verifE_AddrTypeEnum, sub == 0))
			}
		case 2:
			if all || rev || k == -2 || k >= 7 && k < 8 {
				sub := k - 7
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("CALIBRATION_ACCESS")
				w.calibrationAccess = calibrationAccessEnum(b.e("calibrationAccess", verifE_CalibrationAccessEnum, sub == 0))
			}
		case 3:
			if all || rev || k == -2 || k >= 8 && k < 9 {
				sub := k - 8
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DISPLAY_IDENTIFIER")
				w.displayIdentifier = verifMk_DisplayIdentifier(b, sub)
			}
		case 4:
			if all || rev || k == -2 || k >= 9 && k < 10 {
				sub := k - 9
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ECU_ADDRESS_EXTENSION")
				w.ecuAddressExtension = verifMk_ecuAddressExtension(b, sub)
			}
		case 5:
			if all || rev || k == -2 || k >= 10 && k < 11 {
				sub := k - 10
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin IF_DATA")
				w.ifData = append(w.ifData, verifMk_IfData(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin IF_DATA")
					w.ifData = append(w.ifData, verifMk_IfData(b, -1))
				}
			}
		case 6:
			if all || rev || k == -2 || k >= 11 && k < 12 {
				sub := k - 11
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MATRIX_DIM")
				w.matrixDim = verifMk_MatrixDim(b, sub)
			}
		case 7:
			if all || rev || k == -2 || k >= 12 && k < 13 {
				sub := k - 12
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MAX_REFRESH")
				w.maxRefresh = verifMk_MaxRefresh(b, sub)
			}
		case 8:
			if all || rev || k == -2 || k >= 13 && k < 14 {
				sub := k - 13
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MODEL_LINK")
				w.modelLink = verifMk_modelLink(b, sub)
			}
		case 9:
			if all || rev || k == -2 || k >= 14 && k < 24 || pair && nested >= 9 && nested < 58 {
				sub := k - 14
				if all || rev {
					sub = verifModes_overwrite - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
					if k != -2 {
						sub = verifModes_overwrite + nested - 9
					}
				}
				_ = sub
				b.t("/begin OVERWRITE")
				w.overwrite = verifMk_overwrite(b, sub)
			}
		case 10:
			if all || rev || k == -2 || k >= 24 && k < 25 {
				sub := k - 24
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("READ_WRITE")
				w.readWrite = verifMk_readWriteKeyword(b, sub)
			}
		case 11:
			if all || rev || k == -2 || k >= 25 && k < 26 {
				sub := k - 25
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SYMBOL_LINK")
				w.symbolLink = verifMk_symbolLink(b, sub)
			}
		}
	}
	b.t("/end INSTANCE")
	return w
}
func verifEq_instance(a, w instance) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.LongIdentifier == w.LongIdentifier)
	r = verifAnd(r, a.longIdentifierSet == w.longIdentifierSet)
	r = verifAnd(r, a.typeDefName == w.typeDefName)
	r = verifAnd(r, a.typeDefNameSet == w.typeDefNameSet)
	r = verifAnd(r, a.address == w.address)
	r = verifAnd(r, a.addressSet == w.addressSet)
	r = verifAnd(r, a.addressType == w.addressType)
	r = verifAnd(r, len(a.annotation) == len(w.annotation))
	for i := 0; i < len(a.annotation) && i < len(w.annotation); i++ {
		r = verifAnd(r, verifEq_annotation(a.annotation[i], w.annotation[i]))
	}
	r = verifAnd(r, a.calibrationAccess == w.calibrationAccess)
	r = verifAnd(r, verifEq_DisplayIdentifier(a.displayIdentifier, w.displayIdentifier))
	r = verifAnd(r, verifEq_ecuAddressExtension(a.ecuAddressExtension, w.ecuAddressExtension))
	r = verifAnd(r, len(a.ifData) == len(w.ifData))
	for i := 0; i < len(a.ifData) && i < len(w.ifData); i++ {
		r = verifAnd(r, verifEq_IfData(a.ifData[i], w.ifData[i]))
	}
	r = verifAnd(r, verifEq_MatrixDim(a.matrixDim, w.matrixDim))
	r = verifAnd(r, verifEq_MaxRefresh(a.maxRefresh, w.maxRefresh))
	r = verifAnd(r, verifEq_modelLink(a.modelLink, w.modelLink))
	r = verifAnd(r, verifEq_overwrite(a.overwrite, w.overwrite))
	r = verifAnd(r, verifEq_readWriteKeyword(a.readWrite, w.readWrite))
	r = verifAnd(r, verifEq_symbolLink(a.symbolLink, w.symbolLink))
	return r
}

const verifModes_limits = 1

// limits: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_limits(b *verifB, m int) limits {
	var w limits
	vary := m == 0
	_ = vary
	w.lowerLimit = b.f("lowerLimit")
	w.lowerLimitSet = true
	w.upperLimit = b.f("upperLimit")
	w.upperLimitSet = true
	return w
}
func verifEq_limits(a, w limits) bool {
	r := true
	r = verifAnd(r, a.lowerLimit == w.lowerLimit)
	r = verifAnd(r, a.lowerLimitSet == w.lowerLimitSet)
	r = verifAnd(r, a.upperLimit == w.upperLimit)
	r = verifAnd(r, a.upperLimitSet == w.upperLimitSet)
	return r
}

const verifModes_overwrite = 10
const verifPairs_overwrite = 49

// overwrite: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_overwrite(b *verifB, m int) overwrite {
	var w overwrite
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.axisNumer = b.u16("axisNumer")
	w.axisNumberSet = true
	k := m - 1
	all, rev := m == verifModes_overwrite-2, m == verifModes_overwrite-1
	pair, first, second, nested := m >= verifModes_overwrite, -1, -1, m-verifModes_overwrite-49
	if pair && nested < 0 {
		first, second = (m-verifModes_overwrite)/7, (m-verifModes_overwrite)%7
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 7; i++ {
		o := i
		if rev {
			o = 6 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("CONVERSION")
				w.conversion = b.s("conversion")
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 2 {
				sub := k - 1
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("EXTENDED_LIMITS")
				w.extendedLimits = verifMk_extendedLimits(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 2 && k < 3 {
				sub := k - 2
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FORMAT")
				w.format = verifMk_format(b, sub)
			}
		case 3:
			if all || rev || k == -2 || k >= 3 && k < 4 {
				sub := k - 3
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("INPUT_QUANTITY")
				w.inputQuantity = b.s("inputQuantity")
			}
		case 4:
			if all || rev || k == -2 || k >= 4 && k < 5 {
				sub := k - 4
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("LIMITS")
				w.limits = verifMk_limits(b, sub)
			}
		case 5:
			if all || rev || k == -2 || k >= 5 && k < 6 {
				sub := k - 5
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MONOTONY")
				w.monotony = verifMk_Monotony(b, sub)
			}
		case 6:
			if all || rev || k == -2 || k >= 6 && k < 7 {
				sub := k - 6
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("PHYS_UNIT")
				w.physUnit = verifMk_physUnit(b, sub)
			}
		}
	}
	b.t("/end OVERWRITE")
	return w
}
func verifEq_overwrite(a, w overwrite) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.axisNumer == w.axisNumer)
	r = verifAnd(r, a.axisNumberSet == w.axisNumberSet)
	r = verifAnd(r, a.conversion == w.conversion)
	r = verifAnd(r, verifEq_extendedLimits(a.extendedLimits, w.extendedLimits))
	r = verifAnd(r, a.inputQuantity == w.inputQuantity)
	r = verifAnd(r, verifEq_format(a.format, w.format))
	r = verifAnd(r, verifEq_limits(a.limits, w.limits))
	r = verifAnd(r, verifEq_Monotony(a.monotony, w.monotony))
	r = verifAnd(r, verifEq_physUnit(a.physUnit, w.physUnit))
	return r
}
