// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_Characteristic = 57
const verifPairs_Characteristic = 972

// Characteristic: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_Characteristic(b *verifB, m int) Characteristic {
	var w Characteristic
	vary := m == 0
	_ = vary
	w.Name = b.s("Name")
	w.nameSet = true
	w.LongIdentifier = b.s("LongIdentifier")
	w.longIdentifierSet = true
	w.Type = TypeEnum(b.e("Type", verifE_TypeEnum, vary))
	w.TypeSet = true
	w.Address = b.s("Address")
	w.addressSet = true
	w.Deposit = b.s("Deposit")
	w.DepositSet = true
	w.maxDiff = b.f("maxDiff")
	w.maxDiffSet = true
	w.conversion = b.s("conversion")
	w.conversionSet = true
	w.lowerLimit = b.f("lowerLimit")
	w.lowerLimitSet = true
	w.upperLimit = b.f("upperLimit")
	w.upperLimitSet = true
	k := m - 1
	all, rev := m == verifModes_Characteristic-2, m == verifModes_Characteristic-1
	pair, first, second, nested := m >= verifModes_Characteristic, -1, -1, m-verifModes_Characteristic-729
	if pair && nested < 0 {
		first, second = (m-verifModes_Characteristic)/27, (m-verifModes_Characteristic)%27
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 27; i++ {
		o := i
		if rev {
			o = 26 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 6 || pair && nested >= 0 && nested < 9 {
				sub := k - 0
				if all || rev {
					sub = verifModes_annotation - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
					if k != -2 {
						sub = verifModes_annotation + nested - 0
					}
				}
				_ = sub
				b.t("/begin ANNOTATION")
				w.annotation = append(w.annotation, verifMk_annotation(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin ANNOTATION")
					w.annotation = append(w.annotation, verifMk_annotation(b, -1))
				}
			}
		case 1:
			if all || rev || k == -2 || k >= 6 && k < 29 || pair && nested >= 9 && nested < 243 {
				sub := k - 6
				if all || rev {
					sub = verifModes_axisDescr - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
					if k != -2 {
						sub = verifModes_axisDescr + nested - 9
					}
				}
				_ = sub
				b.t("/begin AXIS_DESCR")
				w.axisDescr = append(w.axisDescr, verifMk_axisDescr(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin AXIS_DESCR")
					w.axisDescr = append(w.axisDescr, verifMk_axisDescr(b, -1))
				}
			}
		case 2:
			if all || rev || k == -2 || k >= 29 && k < 30 {
				sub := k - 29
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("BIT_MASK")
				w.bitMask = verifMk_bitMask(b, sub)
			}
		case 3:
			if all || rev || k == -2 || k >= 30 && k < 31 {
				sub := k - 30
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("BYTE_ORDER")
				w.byteOrder = verifMk_ByteOrder(b, sub)
			}
		case 4:
			if all || rev || k == -2 || k >= 31 && k < 32 {
				sub := k - 31
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("CALIBRATION_ACCESS")
				w.calibrationAccess = calibrationAccessEnum(b.e("calibrationAccess", verifE_CalibrationAccessEnum, sub == 0))
			}
		case 5:
			if all || rev || k == -2 || k >= 32 && k < 33 {
				sub := k - 32
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("COMPARISON_QUANTITY")
				w.comparisonQuantity = verifMk_comparisonQuantity(b, sub)
			}
		case 6:
			if all || rev || k == -2 || k >= 33 && k < 34 {
				sub := k - 33
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin DEPENDENT_CHARACTERISTIC")
				w.dependentCharacteristic = append(w.dependentCharacteristic, verifMk_DependentCharacteristic(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin DEPENDENT_CHARACTERISTIC")
					w.dependentCharacteristic = append(w.dependentCharacteristic, verifMk_DependentCharacteristic(b, -1))
				}
			}
		case 7:
			if all || rev || k == -2 || k >= 34 && k < 35 {
				sub := k - 34
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DISCRETE")
				w.discrete = verifMk_discreteKeyword(b, sub)
			}
		case 8:
			if all || rev || k == -2 || k >= 35 && k < 36 {
				sub := k - 35
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DISPLAY_IDENTIFIER")
				w.displayIdentifier = verifMk_DisplayIdentifier(b, sub)
			}
		case 9:
			if all || rev || k == -2 || k >= 36 && k < 37 {
				sub := k - 36
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ENCODING")
				w.encoding = encodingEnum(b.e("encoding", verifE_EncodingEnum, sub == 0))
			}
		case 10:
			if all || rev || k == -2 || k >= 37 && k < 38 {
				sub := k - 37
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ECU_ADDRESS_EXTENSION")
				w.ecuAddressExtension = verifMk_ecuAddressExtension(b, sub)
			}
		case 11:
			if all || rev || k == -2 || k >= 38 && k < 39 {
				sub := k - 38
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("EXTENDED_LIMITS")
				w.extendedLimits = verifMk_extendedLimits(b, sub)
			}
		case 12:
			if all || rev || k == -2 || k >= 39 && k < 40 {
				sub := k - 39
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FORMAT")
				w.format = verifMk_format(b, sub)
			}
		case 13:
			if all || rev || k == -2 || k >= 40 && k < 41 {
				sub := k - 40
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin FUNCTION_LIST")
				w.functionList = append(w.functionList, verifMk_FunctionList(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin FUNCTION_LIST")
					w.functionList = append(w.functionList, verifMk_FunctionList(b, -1))
				}
			}
		case 14:
			if all || rev || k == -2 || k >= 41 && k < 42 {
				sub := k - 41
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("GUARD_RAILS")
				w.guardRails = verifMk_guardRailsKeyword(b, sub)
			}
		case 15:
			if all || rev || k == -2 || k >= 42 && k < 43 {
				sub := k - 42
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin IF_DATA")
				w.ifData = append(w.ifData, verifMk_IfData(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin IF_DATA")
					w.ifData = append(w.ifData, verifMk_IfData(b, -1))
				}
			}
		case 16:
			if all || rev || k == -2 || k >= 43 && k < 44 {
				sub := k - 43
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin MAP_LIST")
				w.mapList = append(w.mapList, verifMk_MapList(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin MAP_LIST")
					w.mapList = append(w.mapList, verifMk_MapList(b, -1))
				}
			}
		case 17:
			if all || rev || k == -2 || k >= 44 && k < 45 {
				sub := k - 44
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MATRIX_DIM")
				w.MatrixDim = verifMk_MatrixDim(b, sub)
			}
		case 18:
			if all || rev || k == -2 || k >= 45 && k < 46 {
				sub := k - 45
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MAX_REFRESH")
				w.maxRefresh = verifMk_MaxRefresh(b, sub)
			}
		case 19:
			if all || rev || k == -2 || k >= 46 && k < 47 {
				sub := k - 46
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MODEL_LINK")
				w.modelLink = verifMk_modelLink(b, sub)
			}
		case 20:
			if all || rev || k == -2 || k >= 47 && k < 48 {
				sub := k - 47
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("NUMBER")
				w.number = verifMk_Number(b, sub)
			}
		case 21:
			if all || rev || k == -2 || k >= 48 && k < 49 {
				sub := k - 48
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("PHYS_UNIT")
				w.physUnit = verifMk_physUnit(b, sub)
			}
		case 22:
			if all || rev || k == -2 || k >= 49 && k < 50 {
				sub := k - 49
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("READ_ONLY")
				w.readOnly = verifMk_readOnlyKeyword(b, sub)
			}
		case 23:
			if all || rev || k == -2 || k >= 50 && k < 51 {
				sub := k - 50
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("REF_MEMORY_SEGMENT")
				w.refMemorySegment = verifMk_refMemorySegment(b, sub)
			}
		case 24:
			if all || rev || k == -2 || k >= 51 && k < 52 {
				sub := k - 51
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("STEP_SIZE")
				w.stepSize = verifMk_StepSize(b, sub)
			}
		case 25:
			if all || rev || k == -2 || k >= 52 && k < 53 {
				sub := k - 52
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SYMBOL_LINK")
				w.symbolLink = verifMk_symbolLink(b, sub)
			}
		case 26:
			if all || rev || k == -2 || k >= 53 && k < 54 {
				sub := k - 53
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin VIRTUAL_CHARACTERISTIC")
				w.virtualCharacteristic = append(w.virtualCharacteristic, verifMk_VirtualCharacteristic(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin VIRTUAL_CHARACTERISTIC")
					w.virtualCharacteristic = append(w.virtualCharacteristic, verifMk_VirtualCharacteristic(b, -1))
				}
			}
		}
	}
	b.t("/end CHARACTERISTIC")
	return w
}
func verifEq_Characteristic(a, w Characteristic) bool {
	r := true
	r = verifAnd(r, a.Name == w.Name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.LongIdentifier == w.LongIdentifier)
	r = verifAnd(r, a.longIdentifierSet == w.longIdentifierSet)
	r = verifAnd(r, a.Type == w.Type)
	r = verifAnd(r, a.TypeSet == w.TypeSet)
	r = verifAnd(r, a.Address == w.Address)
	r = verifAnd(r, a.addressSet == w.addressSet)
	r = verifAnd(r, a.Deposit == w.Deposit)
	r = verifAnd(r, a.DepositSet == w.DepositSet)
	r = verifAnd(r, a.encoding == w.encoding)
	r = verifAnd(r, a.maxDiff == w.maxDiff)
	r = verifAnd(r, a.maxDiffSet == w.maxDiffSet)
	r = verifAnd(r, a.conversion == w.conversion)
	r = verifAnd(r, a.conversionSet == w.conversionSet)
	r = verifAnd(r, a.lowerLimit == w.lowerLimit)
	r = verifAnd(r, a.lowerLimitSet == w.lowerLimitSet)
	r = verifAnd(r, a.upperLimit == w.upperLimit)
	r = verifAnd(r, a.upperLimitSet == w.upperLimitSet)
	r = verifAnd(r, len(a.annotation) == len(w.annotation))
	for i := 0; i < len(a.annotation) && i < len(w.annotation); i++ {
		r = verifAnd(r, verifEq_annotation(a.annotation[i], w.annotation[i]))
	}
	r = verifAnd(r, len(a.axisDescr) == len(w.axisDescr))
	for i := 0; i < len(a.axisDescr) && i < len(w.axisDescr); i++ {
		r = verifAnd(r, verifEq_axisDescr(a.axisDescr[i], w.axisDescr[i]))
	}
	r = verifAnd(r, verifEq_bitMask(a.bitMask, w.bitMask))
	r = verifAnd(r, verifEq_ByteOrder(a.byteOrder, w.byteOrder))
	r = verifAnd(r, a.calibrationAccess == w.calibrationAccess)
	r = verifAnd(r, verifEq_comparisonQuantity(a.comparisonQuantity, w.comparisonQuantity))
	r = verifAnd(r, len(a.dependentCharacteristic) == len(w.dependentCharacteristic))
	for i := 0; i < len(a.dependentCharacteristic) && i < len(w.dependentCharacteristic); i++ {
		r = verifAnd(r, verifEq_DependentCharacteristic(a.dependentCharacteristic[i], w.dependentCharacteristic[i]))
	}
	r = verifAnd(r, verifEq_discreteKeyword(a.discrete, w.discrete))
	r = verifAnd(r, verifEq_DisplayIdentifier(a.displayIdentifier, w.displayIdentifier))
	r = verifAnd(r, verifEq_ecuAddressExtension(a.ecuAddressExtension, w.ecuAddressExtension))
	r = verifAnd(r, verifEq_extendedLimits(a.extendedLimits, w.extendedLimits))
	r = verifAnd(r, verifEq_format(a.format, w.format))
	r = verifAnd(r, len(a.functionList) == len(w.functionList))
	for i := 0; i < len(a.functionList) && i < len(w.functionList); i++ {
		r = verifAnd(r, verifEq_FunctionList(a.functionList[i], w.functionList[i]))
	}
	r = verifAnd(r, verifEq_guardRailsKeyword(a.guardRails, w.guardRails))
	r = verifAnd(r, len(a.ifData) == len(w.ifData))
	for i := 0; i < len(a.ifData) && i < len(w.ifData); i++ {
		r = verifAnd(r, verifEq_IfData(a.ifData[i], w.ifData[i]))
	}
	r = verifAnd(r, len(a.mapList) == len(w.mapList))
	for i := 0; i < len(a.mapList) && i < len(w.mapList); i++ {
		r = verifAnd(r, verifEq_MapList(a.mapList[i], w.mapList[i]))
	}
	r = verifAnd(r, verifEq_MatrixDim(a.MatrixDim, w.MatrixDim))
	r = verifAnd(r, verifEq_MaxRefresh(a.maxRefresh, w.maxRefresh))
	r = verifAnd(r, verifEq_modelLink(a.modelLink, w.modelLink))
	r = verifAnd(r, verifEq_Number(a.number, w.number))
	r = verifAnd(r, verifEq_physUnit(a.physUnit, w.physUnit))
	r = verifAnd(r, verifEq_readOnlyKeyword(a.readOnly, w.readOnly))
	r = verifAnd(r, verifEq_refMemorySegment(a.refMemorySegment, w.refMemorySegment))
	r = verifAnd(r, verifEq_StepSize(a.stepSize, w.stepSize))
	r = verifAnd(r, verifEq_symbolLink(a.symbolLink, w.symbolLink))
	r = verifAnd(r, len(a.virtualCharacteristic) == len(w.virtualCharacteristic))
	for i := 0; i < len(a.virtualCharacteristic) && i < len(w.virtualCharacteristic); i++ {
		r = verifAnd(r, verifEq_VirtualCharacteristic(a.virtualCharacteristic[i], w.virtualCharacteristic[i]))
	}
	return r
}

const verifModes_DependentCharacteristic = 1

// DependentCharacteristic: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_DependentCharacteristic(b *verifB, m int) DependentCharacteristic {
	var w DependentCharacteristic
	vary := m == 0
	_ = vary
	w.formula = b.s("formula")
	w.formulaSet = true
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.characteristic = append(w.characteristic, b.s("characteristic"))
	}
	w.characteristicSet = true
	b.t("/end DEPENDENT_CHARACTERISTIC")
	return w
}
func verifEq_DependentCharacteristic(a, w DependentCharacteristic) bool {
	r := true
	r = verifAnd(r, a.formula == w.formula)
	r = verifAnd(r, a.formulaSet == w.formulaSet)
	r = verifAnd(r, len(a.characteristic) == len(w.characteristic))
	for i := 0; i < len(a.characteristic) && i < len(w.characteristic); i++ {
		r = verifAnd(r, a.characteristic[i] == w.characteristic[i])
	}
	r = verifAnd(r, a.characteristicSet == w.characteristicSet)
	return r
}

const verifModes_MapList = 1

// MapList: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_MapList(b *verifB, m int) MapList {
	var w MapList
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.name = append(w.name, b.s("name"))
	}
	w.nameSet = true
	b.t("/end MAP_LIST")
	return w
}
func verifEq_MapList(a, w MapList) bool {
	r := true
	r = verifAnd(r, len(a.name) == len(w.name))
	for i := 0; i < len(a.name) && i < len(w.name); i++ {
		r = verifAnd(r, a.name[i] == w.name[i])
	}
	r = verifAnd(r, a.nameSet == w.nameSet)
	return r
}

const verifModes_VirtualCharacteristic = 1

// VirtualCharacteristic: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_VirtualCharacteristic(b *verifB, m int) VirtualCharacteristic {
	var w VirtualCharacteristic
	vary := m == 0
	_ = vary
	w.formula = b.s("formula")
	w.formulaSet = true
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.characteristic = append(w.characteristic, b.s("characteristic"))
	}
	w.characteristicSet = true
	b.t("/end VIRTUAL_CHARACTERISTIC")
	return w
}
func verifEq_VirtualCharacteristic(a, w VirtualCharacteristic) bool {
	r := true
	r = verifAnd(r, a.formula == w.formula)
	r = verifAnd(r, a.formulaSet == w.formulaSet)
	r = verifAnd(r, len(a.characteristic) == len(w.characteristic))
	for i := 0; i < len(a.characteristic) && i < len(w.characteristic); i++ {
		r = verifAnd(r, a.characteristic[i] == w.characteristic[i])
	}
	r = verifAnd(r, a.characteristicSet == w.characteristicSet)
	return r
}

const verifModes_comparisonQuantity = 1

// comparisonQuantity: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_comparisonQuantity(b *verifB, m int) comparisonQuantity {
	var w comparisonQuantity
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	return w
}
func verifEq_comparisonQuantity(a, w comparisonQuantity) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	return r
}
