// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_arraySize = 1

// arraySize: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_arraySize(b *verifB, m int) arraySize {
	var w arraySize
	vary := m == 0
	_ = vary
	w.number = b.u16("number")
	w.numberSet = true
	return w
}
func verifEq_arraySize(a, w arraySize) bool {
	r := true
	r = verifAnd(r, a.number == w.number)
	r = verifAnd(r, a.numberSet == w.numberSet)
	return r
}

const verifModes_ecuAddress = 1

// ecuAddress: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_ecuAddress(b *verifB, m int) ecuAddress {
	var w ecuAddress
	vary := m == 0
	_ = vary
	w.address = b.s("address")
	w.addressSet = true
	return w
}
func verifEq_ecuAddress(a, w ecuAddress) bool {
	r := true
	r = verifAnd(r, a.address == w.address)
	r = verifAnd(r, a.addressSet == w.addressSet)
	return r
}

const verifModes_measurement = 35
const verifPairs_measurement = 502

// measurement: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_measurement(b *verifB, m int) measurement {
	var w measurement
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.longIdentifier = b.s("longIdentifier")
	w.longIdentifierSet = true
	w.datatype = DataTypeEnum(b.e("datatype", verifE_DataTypeEnum, vary))
	w.datatypeSet = true
	w.conversion = b.s("conversion")
	w.conversionSet = true
	w.resolution = b.u16("resolution")
	w.resolutionSet = true
	w.accuracy = b.f("accuracy")
	w.accuracySet = true
	w.lowerLimit = b.f("lowerLimit")
	w.lowerLimitSet = true
	w.upperLimit = b.f("upperLimit")
	w.upperLimitSet = true
	k := m - 1
	all, rev := m == verifModes_measurement-2, m == verifModes_measurement-1
	pair, first, second, nested := m >= verifModes_measurement, -1, -1, m-verifModes_measurement-484
	if pair && nested < 0 {
		first, second = (m-verifModes_measurement)/22, (m-verifModes_measurement)%22
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 22; i++ {
		o := i
		if rev {
			o = 21 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 6 || pair && nested >= 0 && nested < 9 {
				sub := k - 0
				if all || rev {
					sub = verifModes_annotation - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
					if k != -2 {
						sub = verifModes_annotation + nested - 0
					}
				}
				_ = sub
				b.t("/begin ANNOTATION")
				w.annotation = append(w.annotation, verifMk_annotation(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin ANNOTATION")
					w.annotation = append(w.annotation, verifMk_annotation(b, -1))
				}
			}
		case 1:
			if all || rev || k == -2 || k >= 6 && k < 7 {
				sub := k - 6
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ARRAY_SIZE")
				w.arraySize = verifMk_arraySize(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 7 && k < 8 {
				sub := k - 7
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("BIT_MASK")
				w.bitMask = verifMk_bitMask(b, sub)
			}
		case 3:
			if all || rev || k == -2 || k >= 8 && k < 14 || pair && nested >= 9 && nested < 18 {
				sub := k - 8
				if all || rev {
					sub = verifModes_bitOperation - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
					if k != -2 {
						sub = verifModes_bitOperation + nested - 9
					}
				}
				_ = sub
				b.t("/begin BIT_OPERATION")
				w.bitOperation = verifMk_bitOperation(b, sub)
			}
		case 4:
			if all || rev || k == -2 || k >= 14 && k < 15 {
				sub := k - 14
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("BYTE_ORDER")
				w.byteOrder = verifMk_ByteOrder(b, sub)
			}
		case 5:
			if all || rev || k == -2 || k >= 15 && k < 16 {
				sub := k - 15
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DISCRETE")
				w.discrete = verifMk_discreteKeyword(b, sub)
			}
		case 6:
			if all || rev || k == -2 || k >= 16 && k < 17 {
				sub := k - 16
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DISPLAY_IDENTIFIER")
				w.displayIdentifier = verifMk_DisplayIdentifier(b, sub)
			}
		case 7:
			if all || rev || k == -2 || k >= 17 && k < 18 {
				sub := k - 17
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ECU_ADDRESS")
				w.ecuAddress = verifMk_ecuAddress(b, sub)
			}
		case 8:
			if all || rev || k == -2 || k >= 18 && k < 19 {
				sub := k - 18
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ECU_ADDRESS_EXTENSION")
				w.ecuAddressExtension = verifMk_ecuAddressExtension(b, sub)
			}
		case 9:
			if all || rev || k == -2 || k >= 19 && k < 20 {
				sub := k - 19
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ERROR_MASK")
				w.errorMask = verifMk_errorMask(b, sub)
			}
		case 10:
			if all || rev || k == -2 || k >= 20 && k < 21 {
				sub := k - 20
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FORMAT")
				w.format = verifMk_format(b, sub)
			}
		case 11:
			if all || rev || k == -2 || k >= 21 && k < 22 {
				sub := k - 21
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin FUNCTION_LIST")
				w.functionList = verifMk_FunctionList(b, sub)
			}
		case 12:
			if all || rev || k == -2 || k >= 22 && k < 23 {
				sub := k - 22
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin IF_DATA")
				w.ifData = append(w.ifData, verifMk_IfData(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin IF_DATA")
					w.ifData = append(w.ifData, verifMk_IfData(b, -1))
				}
			}
		case 13:
			if all || rev || k == -2 || k >= 23 && k < 24 {
				sub := k - 23
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("LAYOUT")
				w.layout = verifMk_layout(b, sub)
			}
		case 14:
			if all || rev || k == -2 || k >= 24 && k < 25 {
				sub := k - 24
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MATRIX_DIM")
				w.matrixDim = verifMk_MatrixDim(b, sub)
			}
		case 15:
			if all || rev || k == -2 || k >= 25 && k < 26 {
				sub := k - 25
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MAX_REFRESH")
				w.maxRefresh = verifMk_MaxRefresh(b, sub)
			}
		case 16:
			if all || rev || k == -2 || k >= 26 && k < 27 {
				sub := k - 26
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MODEL_LINK")
				w.modelLink = verifMk_modelLink(b, sub)
			}
		case 17:
			if all || rev || k == -2 || k >= 27 && k < 28 {
				sub := k - 27
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("PHYS_UNIT")
				w.physUnit = verifMk_physUnit(b, sub)
			}
		case 18:
			if all || rev || k == -2 || k >= 28 && k < 29 {
				sub := k - 28
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("READ_WRITE")
				w.readWrite = verifMk_readWriteKeyword(b, sub)
			}
		case 19:
			if all || rev || k == -2 || k >= 29 && k < 30 {
				sub := k - 29
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("REF_MEMORY_SEGMENT")
				w.refMemorySegment = verifMk_refMemorySegment(b, sub)
			}
		case 20:
			if all || rev || k == -2 || k >= 30 && k < 31 {
				sub := k - 30
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SYMBOL_LINK")
				w.symbolLink = verifMk_symbolLink(b, sub)
			}
		case 21:
			if all || rev || k == -2 || k >= 31 && k < 32 {
				sub := k - 31
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin VIRTUAL")
				w.virtual = verifMk_virtual(b, sub)
			}
		}
	}
	b.t("/end MEASUREMENT")
	return w
}
func verifEq_measurement(a, w measurement) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.longIdentifier == w.longIdentifier)
	r = verifAnd(r, a.longIdentifierSet == w.longIdentifierSet)
	r = verifAnd(r, a.datatype == w.datatype)
	r = verifAnd(r, a.datatypeSet == w.datatypeSet)
	r = verifAnd(r, a.conversion == w.conversion)
	r = verifAnd(r, a.conversionSet == w.conversionSet)
	r = verifAnd(r, a.resolution == w.resolution)
	r = verifAnd(r, a.resolutionSet == w.resolutionSet)
	r = verifAnd(r, a.accuracy == w.accuracy)
	r = verifAnd(r, a.accuracySet == w.accuracySet)
	r = verifAnd(r, a.lowerLimit == w.lowerLimit)
	r = verifAnd(r, a.lowerLimitSet == w.lowerLimitSet)
	r = verifAnd(r, a.upperLimit == w.upperLimit)
	r = verifAnd(r, a.upperLimitSet == w.upperLimitSet)
	r = verifAnd(r, len(a.annotation) == len(w.annotation))
	for i := 0; i < len(a.annotation) && i < len(w.annotation); i++ {
		r = verifAnd(r, verifEq_annotation(a.annotation[i], w.annotation[i]))
	}
	r = verifAnd(r, verifEq_arraySize(a.arraySize, w.arraySize))
	r = verifAnd(r, verifEq_bitMask(a.bitMask, w.bitMask))
	r = verifAnd(r, verifEq_bitOperation(a.bitOperation, w.bitOperation))
	r = verifAnd(r, verifEq_ByteOrder(a.byteOrder, w.byteOrder))
	r = verifAnd(r, verifEq_discreteKeyword(a.discrete, w.discrete))
	r = verifAnd(r, verifEq_DisplayIdentifier(a.displayIdentifier, w.displayIdentifier))
	r = verifAnd(r, verifEq_ecuAddress(a.ecuAddress, w.ecuAddress))
	r = verifAnd(r, verifEq_ecuAddressExtension(a.ecuAddressExtension, w.ecuAddressExtension))
	r = verifAnd(r, verifEq_errorMask(a.errorMask, w.errorMask))
	r = verifAnd(r, verifEq_format(a.format, w.format))
	r = verifAnd(r, verifEq_FunctionList(a.functionList, w.functionList))
	r = verifAnd(r, len(a.ifData) == len(w.ifData))
	for i := 0; i < len(a.ifData) && i < len(w.ifData); i++ {
		r = verifAnd(r, verifEq_IfData(a.ifData[i], w.ifData[i]))
	}
	r = verifAnd(r, verifEq_layout(a.layout, w.layout))
	r = verifAnd(r, verifEq_MatrixDim(a.matrixDim, w.matrixDim))
	r = verifAnd(r, verifEq_MaxRefresh(a.maxRefresh, w.maxRefresh))
	r = verifAnd(r, verifEq_modelLink(a.modelLink, w.modelLink))
	r = verifAnd(r, verifEq_physUnit(a.physUnit, w.physUnit))
	r = verifAnd(r, verifEq_readWriteKeyword(a.readWrite, w.readWrite))
	r = verifAnd(r, verifEq_refMemorySegment(a.refMemorySegment, w.refMemorySegment))
	r = verifAnd(r, verifEq_symbolLink(a.symbolLink, w.symbolLink))
	r = verifAnd(r, verifEq_virtual(a.virtual, w.virtual))
	return r
}

const verifModes_virtual = 1

// virtual: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_virtual(b *verifB, m int) virtual {
	var w virtual
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.measuringChannel = append(w.measuringChannel, b.s("measuringChannel"))
	}
	w.measuringChannelSet = true
	b.t("/end VIRTUAL")
	return w
}
func verifEq_virtual(a, w virtual) bool {
	r := true
	r = verifAnd(r, len(a.measuringChannel) == len(w.measuringChannel))
	for i := 0; i < len(a.measuringChannel) && i < len(w.measuringChannel); i++ {
		r = verifAnd(r, a.measuringChannel[i] == w.measuringChannel[i])
	}
	r = verifAnd(r, a.measuringChannelSet == w.measuringChannelSet)
	return r
}
