// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_SystemConstant = 1

// SystemConstant: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_SystemConstant(b *verifB, m int) SystemConstant {
	var w SystemConstant
	vary := m == 0
	_ = vary
	w.Name = b.s("Name")
	w.NameSet = true
	w.Value = b.s("Value")
	w.ValueSet = true
	return w
}
func verifEq_SystemConstant(a, w SystemConstant) bool {
	r := true
	r = verifAnd(r, a.Name == w.Name)
	r = verifAnd(r, a.NameSet == w.NameSet)
	r = verifAnd(r, a.Value == w.Value)
	r = verifAnd(r, a.ValueSet == w.ValueSet)
	return r
}

const verifModes_addrEpk = 1

// addrEpk: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_addrEpk(b *verifB, m int) addrEpk {
	var w addrEpk
	vary := m == 0
	_ = vary
	w.address = b.s("address")
	w.addressSet = true
	return w
}
func verifEq_addrEpk(a, w addrEpk) bool {
	r := true
	r = verifAnd(r, a.address == w.address)
	r = verifAnd(r, a.addressSet == w.addressSet)
	return r
}

const verifModes_calibrationHandle = 4

// calibrationHandle: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_calibrationHandle(b *verifB, m int) calibrationHandle {
	var w calibrationHandle
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.handle = append(w.handle, b.s("handle"))
	}
	w.handleSet = true
	k := m - 1
	all, rev := m == verifModes_calibrationHandle-2, m == verifModes_calibrationHandle-1
	pair, first, second, nested := m >= verifModes_calibrationHandle, -1, -1, m-verifModes_calibrationHandle-1
	if pair && nested < 0 {
		first, second = (m-verifModes_calibrationHandle)/1, (m-verifModes_calibrationHandle)%1
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 1; i++ {
		o := i
		if rev {
			o = 0 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("CALIBRATION_HANDLE_TEXT")
				w.calibrationHandleText = verifMk_calibrationHandleText(b, sub)
			}
		}
	}
	b.t("/end CALIBRATION_HANDLE")
	return w
}
func verifEq_calibrationHandle(a, w calibrationHandle) bool {
	r := true
	r = verifAnd(r, len(a.handle) == len(w.handle))
	for i := 0; i < len(a.handle) && i < len(w.handle); i++ {
		r = verifAnd(r, a.handle[i] == w.handle[i])
	}
	r = verifAnd(r, a.handleSet == w.handleSet)
	r = verifAnd(r, verifEq_calibrationHandleText(a.calibrationHandleText, w.calibrationHandleText))
	return r
}

const verifModes_calibrationHandleText = 1

// calibrationHandleText: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_calibrationHandleText(b *verifB, m int) calibrationHandleText {
	var w calibrationHandleText
	vary := m == 0
	_ = vary
	w.text = b.s("text")
	w.textSet = true
	return w
}
func verifEq_calibrationHandleText(a, w calibrationHandleText) bool {
	r := true
	r = verifAnd(r, a.text == w.text)
	r = verifAnd(r, a.textSet == w.textSet)
	return r
}

const verifModes_calibrationMethod = 7

// calibrationMethod: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_calibrationMethod(b *verifB, m int) calibrationMethod {
	var w calibrationMethod
	vary := m == 0
	_ = vary
	w.method = b.s("method")
	w.methodSet = true
	w.version = b.u32("version")
	w.versionSet = true
	k := m - 1
	all, rev := m == verifModes_calibrationMethod-2, m == verifModes_calibrationMethod-1
	pair, first, second, nested := m >= verifModes_calibrationMethod, -1, -1, m-verifModes_calibrationMethod-1
	if pair && nested < 0 {
		first, second = (m-verifModes_calibrationMethod)/1, (m-verifModes_calibrationMethod)%1
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 1; i++ {
		o := i
		if rev {
			o = 0 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 4 {
				sub := k - 0
				if all || rev {
					sub = verifModes_calibrationHandle - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin CALIBRATION_HANDLE")
				w.calibrationHandle = append(w.calibrationHandle, verifMk_calibrationHandle(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin CALIBRATION_HANDLE")
					w.calibrationHandle = append(w.calibrationHandle, verifMk_calibrationHandle(b, -1))
				}
			}
		}
	}
	b.t("/end CALIBRATION_METHOD")
	return w
}
func verifEq_calibrationMethod(a, w calibrationMethod) bool {
	r := true
	r = verifAnd(r, a.method == w.method)
	r = verifAnd(r, a.methodSet == w.methodSet)
	r = verifAnd(r, a.version == w.version)
	r = verifAnd(r, a.versionSet == w.versionSet)
	r = verifAnd(r, len(a.calibrationHandle) == len(w.calibrationHandle))
	for i := 0; i < len(a.calibrationHandle) && i < len(w.calibrationHandle); i++ {
		r = verifAnd(r, verifEq_calibrationHandle(a.calibrationHandle[i], w.calibrationHandle[i]))
	}
	return r
}

const verifModes_cpuType = 1

// cpuType: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_cpuType(b *verifB, m int) cpuType {
	var w cpuType
	vary := m == 0
	_ = vary
	w.cpu = b.s("cpu")
	w.cpuSet = true
	return w
}
func verifEq_cpuType(a, w cpuType) bool {
	r := true
	r = verifAnd(r, a.cpu == w.cpu)
	r = verifAnd(r, a.cpuSet == w.cpuSet)
	return r
}

const verifModes_customer = 1

// customer: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_customer(b *verifB, m int) customer {
	var w customer
	vary := m == 0
	_ = vary
	w.customer = b.s("customer")
	w.customerSet = true
	return w
}
func verifEq_customer(a, w customer) bool {
	r := true
	r = verifAnd(r, a.customer == w.customer)
	r = verifAnd(r, a.customerSet == w.customerSet)
	return r
}

const verifModes_customerNo = 1

// customerNo: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_customerNo(b *verifB, m int) customerNo {
	var w customerNo
	vary := m == 0
	_ = vary
	w.number = b.s("number")
	w.numberSet = true
	return w
}
func verifEq_customerNo(a, w customerNo) bool {
	r := true
	r = verifAnd(r, a.number == w.number)
	r = verifAnd(r, a.numberSet == w.numberSet)
	return r
}

const verifModes_ecu = 1

// ecu: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_ecu(b *verifB, m int) ecu {
	var w ecu
	vary := m == 0
	_ = vary
	w.controlUnit = b.s("controlUnit")
	w.controlUnitSet = true
	return w
}
func verifEq_ecu(a, w ecu) bool {
	r := true
	r = verifAnd(r, a.controlUnit == w.controlUnit)
	r = verifAnd(r, a.controlUnitSet == w.controlUnitSet)
	return r
}

const verifModes_ecuCalibrationOffset = 1

// ecuCalibrationOffset: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_ecuCalibrationOffset(b *verifB, m int) ecuCalibrationOffset {
	var w ecuCalibrationOffset
	vary := m == 0
	_ = vary
	w.offset = b.s("offset")
	w.offsetSet = true
	return w
}
func verifEq_ecuCalibrationOffset(a, w ecuCalibrationOffset) bool {
	r := true
	r = verifAnd(r, a.offset == w.offset)
	r = verifAnd(r, a.offsetSet == w.offsetSet)
	return r
}

const verifModes_epk = 1

// epk: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_epk(b *verifB, m int) epk {
	var w epk
	vary := m == 0
	_ = vary
	w.identifier = b.s("identifier")
	w.identifierSet = true
	return w
}
func verifEq_epk(a, w epk) bool {
	r := true
	r = verifAnd(r, a.identifier == w.identifier)
	r = verifAnd(r, a.identifierSet == w.identifierSet)
	return r
}

const verifModes_memoryLayout = 4

// memoryLayout: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_memoryLayout(b *verifB, m int) memoryLayout {
	var w memoryLayout
	vary := m == 0
	_ = vary
	w.prgType = prgTypeEnum(b.e("prgType", verifE_PrgTypeEnum, vary))
	w.prgTypeSet = true
	w.address = b.s("address")
	w.addressSet = true
	w.size = b.s("size")
	w.sizeSet = true
	for i := 0; i < 5; i++ {
		w.offset = append(w.offset, b.i32("offset"))
	}
	w.offsetSet = true
	k := m - 1
	all, rev := m == verifModes_memoryLayout-2, m == verifModes_memoryLayout-1
	pair, first, second, nested := m >= verifModes_memoryLayout, -1, -1, m-verifModes_memoryLayout-1
	if pair && nested < 0 {
		first, second = (m-verifModes_memoryLayout)/1, (m-verifModes_memoryLayout)%1
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 1; i++ {
		o := i
		if rev {
			o = 0 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin IF_DATA")
				w.ifData = append(w.ifData, verifMk_IfData(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin IF_DATA")
					w.ifData = append(w.ifData, verifMk_IfData(b, -1))
				}
			}
		}
	}
	b.t("/end MEMORY_LAYOUT")
	return w
}
func verifEq_memoryLayout(a, w memoryLayout) bool {
	r := true
	r = verifAnd(r, a.prgType == w.prgType)
	r = verifAnd(r, a.prgTypeSet == w.prgTypeSet)
	r = verifAnd(r, a.address == w.address)
	r = verifAnd(r, a.addressSet == w.addressSet)
	r = verifAnd(r, a.size == w.size)
	r = verifAnd(r, a.sizeSet == w.sizeSet)
	r = verifAnd(r, len(a.offset) == len(w.offset))
	for i := 0; i < len(a.offset) && i < len(w.offset); i++ {
		r = verifAnd(r, a.offset[i] == w.offset[i])
	}
	r = verifAnd(r, a.offsetSet == w.offsetSet)
	r = verifAnd(r, len(a.ifData) == len(w.ifData))
	for i := 0; i < len(a.ifData) && i < len(w.ifData); i++ {
		r = verifAnd(r, verifEq_IfData(a.ifData[i], w.ifData[i]))
	}
	return r
}

const verifModes_memorySegment = 4

// memorySegment: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_memorySegment(b *verifB, m int) memorySegment {
	var w memorySegment
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.longIdentifier = b.s("longIdentifier")
	w.longIdentifierSet = true
	w.prgType = prgTypeEnum(b.e("prgType", verifE_PrgTypeEnum, vary))
	w.prgTypeSet = true
	w.memoryType = memoryTypeEnum(b.e("memoryType", verifE_MemoryTypeEnum, vary))
	w.memoryTypeSet = true
	w.attribute = attributeEnum(b.e("attribute", verifE_AttributeEnum, vary))
	w.attributeSet = true
	w.address = b.s("address")
	w.addressSet = true
	w.size = b.s("size")
	w.sizeSet = true
	for i := range w.offset {
		w.offset[i] = b.s("offset")
	}
	w.offsetSet = true
	k := m - 1
	all, rev := m == verifModes_memorySegment-2, m == verifModes_memorySegment-1
	pair, first, second, nested := m >= verifModes_memorySegment, -1, -1, m-verifModes_memorySegment-1
	if pair && nested < 0 {
		first, second = (m-verifModes_memorySegment)/1, (m-verifModes_memorySegment)%1
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 1; i++ {
		o := i
		if rev {
			o = 0 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin IF_DATA")
				w.ifData = append(w.ifData, verifMk_IfData(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin IF_DATA")
					w.ifData = append(w.ifData, verifMk_IfData(b, -1))
				}
			}
		}
	}
	b.t("/end MEMORY_SEGMENT")
	return w
}
func verifEq_memorySegment(a, w memorySegment) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.longIdentifier == w.longIdentifier)
	r = verifAnd(r, a.longIdentifierSet == w.longIdentifierSet)
	r = verifAnd(r, a.prgType == w.prgType)
	r = verifAnd(r, a.prgTypeSet == w.prgTypeSet)
	r = verifAnd(r, a.memoryType == w.memoryType)
	r = verifAnd(r, a.memoryTypeSet == w.memoryTypeSet)
	r = verifAnd(r, a.attribute == w.attribute)
	r = verifAnd(r, a.attributeSet == w.attributeSet)
	r = verifAnd(r, a.address == w.address)
	r = verifAnd(r, a.addressSet == w.addressSet)
	r = verifAnd(r, a.size == w.size)
	r = verifAnd(r, a.sizeSet == w.sizeSet)
	for i := range w.offset {
		r = verifAnd(r, a.offset[i] == w.offset[i])
	}
	r = verifAnd(r, a.offsetSet == w.offsetSet)
	r = verifAnd(r, len(a.ifData) == len(w.ifData))
	for i := 0; i < len(a.ifData) && i < len(w.ifData); i++ {
		r = verifAnd(r, verifEq_IfData(a.ifData[i], w.ifData[i]))
	}
	return r
}

const verifModes_modPar = 31
const verifPairs_modPar = 256

// modPar: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_modPar(b *verifB, m int) modPar {
	var w modPar
	vary := m == 0
	_ = vary
	w.comment = b.s("comment")
	w.commentSet = true
	k := m - 1
	all, rev := m == verifModes_modPar-2, m == verifModes_modPar-1
	pair, first, second, nested := m >= verifModes_modPar, -1, -1, m-verifModes_modPar-256
	if pair && nested < 0 {
		first, second = (m-verifModes_modPar)/16, (m-verifModes_modPar)%16
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 16; i++ {
		o := i
		if rev {
			o = 15 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ADDR_EPK")
				w.addrEpk = append(w.addrEpk, verifMk_addrEpk(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("ADDR_EPK")
					w.addrEpk = append(w.addrEpk, verifMk_addrEpk(b, -1))
				}
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 8 {
				sub := k - 1
				if all || rev {
					sub = verifModes_calibrationMethod - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin CALIBRATION_METHOD")
				w.calibrationMethod = append(w.calibrationMethod, verifMk_calibrationMethod(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin CALIBRATION_METHOD")
					w.calibrationMethod = append(w.calibrationMethod, verifMk_calibrationMethod(b, -1))
				}
			}
		case 2:
			if all || rev || k == -2 || k >= 8 && k < 9 {
				sub := k - 8
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("CPU_TYPE")
				w.cpuType = verifMk_cpuType(b, sub)
			}
		case 3:
			if all || rev || k == -2 || k >= 9 && k < 10 {
				sub := k - 9
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("CUSTOMER")
				w.customer = verifMk_customer(b, sub)
			}
		case 4:
			if all || rev || k == -2 || k >= 10 && k < 11 {
				sub := k - 10
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("CUSTOMER_NO")
				w.customerNo = verifMk_customerNo(b, sub)
			}
		case 5:
			if all || rev || k == -2 || k >= 11 && k < 12 {
				sub := k - 11
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ECU")
				w.ecu = verifMk_ecu(b, sub)
			}
		case 6:
			if all || rev || k == -2 || k >= 12 && k < 13 {
				sub := k - 12
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ECU_CALIBRATION_OFFSET")
				w.ecuCalibrationOffset = verifMk_ecuCalibrationOffset(b, sub)
			}
		case 7:
			if all || rev || k == -2 || k >= 13 && k < 14 {
				sub := k - 13
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("EPK")
				w.epk = verifMk_epk(b, sub)
			}
		case 8:
			if all || rev || k == -2 || k >= 14 && k < 18 {
				sub := k - 14
				if all || rev {
					sub = verifModes_memoryLayout - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin MEMORY_LAYOUT")
				w.memoryLayout = append(w.memoryLayout, verifMk_memoryLayout(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin MEMORY_LAYOUT")
					w.memoryLayout = append(w.memoryLayout, verifMk_memoryLayout(b, -1))
				}
			}
		case 9:
			if all || rev || k == -2 || k >= 18 && k < 22 {
				sub := k - 18
				if all || rev {
					sub = verifModes_memorySegment - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin MEMORY_SEGMENT")
				w.memorySegment = append(w.memorySegment, verifMk_memorySegment(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin MEMORY_SEGMENT")
					w.memorySegment = append(w.memorySegment, verifMk_memorySegment(b, -1))
				}
			}
		case 10:
			if all || rev || k == -2 || k >= 22 && k < 23 {
				sub := k - 22
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("NO_OF_INTERFACES")
				w.noOfInterfaces = verifMk_noOfInterfaces(b, sub)
			}
		case 11:
			if all || rev || k == -2 || k >= 23 && k < 24 {
				sub := k - 23
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("PHONE_NO")
				w.phoneNo = verifMk_phoneNo(b, sub)
			}
		case 12:
			if all || rev || k == -2 || k >= 24 && k < 25 {
				sub := k - 24
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SUPPLIER")
				w.supplier = verifMk_supplier(b, sub)
			}
		case 13:
			if all || rev || k == -2 || k >= 25 && k < 26 {
				sub := k - 25
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SYSTEM_CONSTANT")
				x := verifMk_SystemConstant(b, sub)
				w.SystemConstants = map[string]SystemConstant{x.Name: x}
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("SYSTEM_CONSTANT")
					x = verifMk_SystemConstant(b, -1)
					w.SystemConstants[x.Name] = x
				}
			}
		case 14:
			if all || rev || k == -2 || k >= 26 && k < 27 {
				sub := k - 26
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("USER")
				w.user = verifMk_user(b, sub)
			}
		case 15:
			if all || rev || k == -2 || k >= 27 && k < 28 {
				sub := k - 27
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("VERSION")
				w.version = verifMk_version(b, sub)
			}
		}
	}
	b.t("/end MOD_PAR")
	return w
}
func verifEq_modPar(a, w modPar) bool {
	r := true
	r = verifAnd(r, a.comment == w.comment)
	r = verifAnd(r, a.commentSet == w.commentSet)
	r = verifAnd(r, len(a.addrEpk) == len(w.addrEpk))
	for i := 0; i < len(a.addrEpk) && i < len(w.addrEpk); i++ {
		r = verifAnd(r, verifEq_addrEpk(a.addrEpk[i], w.addrEpk[i]))
	}
	r = verifAnd(r, len(a.calibrationMethod) == len(w.calibrationMethod))
	for i := 0; i < len(a.calibrationMethod) && i < len(w.calibrationMethod); i++ {
		r = verifAnd(r, verifEq_calibrationMethod(a.calibrationMethod[i], w.calibrationMethod[i]))
	}
	r = verifAnd(r, verifEq_cpuType(a.cpuType, w.cpuType))
	r = verifAnd(r, verifEq_customer(a.customer, w.customer))
	r = verifAnd(r, verifEq_customerNo(a.customerNo, w.customerNo))
	r = verifAnd(r, verifEq_ecu(a.ecu, w.ecu))
	r = verifAnd(r, verifEq_ecuCalibrationOffset(a.ecuCalibrationOffset, w.ecuCalibrationOffset))
	r = verifAnd(r, verifEq_epk(a.epk, w.epk))
	r = verifAnd(r, len(a.memoryLayout) == len(w.memoryLayout))
	for i := 0; i < len(a.memoryLayout) && i < len(w.memoryLayout); i++ {
		r = verifAnd(r, verifEq_memoryLayout(a.memoryLayout[i], w.memoryLayout[i]))
	}
	r = verifAnd(r, len(a.memorySegment) == len(w.memorySegment))
	for i := 0; i < len(a.memorySegment) && i < len(w.memorySegment); i++ {
		r = verifAnd(r, verifEq_memorySegment(a.memorySegment[i], w.memorySegment[i]))
	}
	r = verifAnd(r, verifEq_noOfInterfaces(a.noOfInterfaces, w.noOfInterfaces))
	r = verifAnd(r, verifEq_phoneNo(a.phoneNo, w.phoneNo))
	r = verifAnd(r, verifEq_supplier(a.supplier, w.supplier))
	r = verifAnd(r, len(a.SystemConstants) == len(w.SystemConstants))
	for k, v := range w.SystemConstants {
		x, ok := a.SystemConstants[k]
		r = verifAnd(r, verifAnd(ok, verifEq_SystemConstant(x, v)))
	}
	r = verifAnd(r, verifEq_user(a.user, w.user))
	r = verifAnd(r, verifEq_version(a.version, w.version))
	return r
}

const verifModes_noOfInterfaces = 1

// noOfInterfaces: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_noOfInterfaces(b *verifB, m int) noOfInterfaces {
	var w noOfInterfaces
	vary := m == 0
	_ = vary
	w.num = b.u16("num")
	w.numSet = true
	return w
}
func verifEq_noOfInterfaces(a, w noOfInterfaces) bool {
	r := true
	r = verifAnd(r, a.num == w.num)
	r = verifAnd(r, a.numSet == w.numSet)
	return r
}

const verifModes_phoneNo = 1

// phoneNo: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_phoneNo(b *verifB, m int) phoneNo {
	var w phoneNo
	vary := m == 0
	_ = vary
	w.telnum = b.s("telnum")
	w.telnumSet = true
	return w
}
func verifEq_phoneNo(a, w phoneNo) bool {
	r := true
	r = verifAnd(r, a.telnum == w.telnum)
	r = verifAnd(r, a.telnumSet == w.telnumSet)
	return r
}

const verifModes_supplier = 1

// supplier: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_supplier(b *verifB, m int) supplier {
	var w supplier
	vary := m == 0
	_ = vary
	w.manufacturer = b.s("manufacturer")
	w.manufacturerSet = true
	return w
}
func verifEq_supplier(a, w supplier) bool {
	r := true
	r = verifAnd(r, a.manufacturer == w.manufacturer)
	r = verifAnd(r, a.manufacturerSet == w.manufacturerSet)
	return r
}

const verifModes_user = 1

// user: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_user(b *verifB, m int) user {
	var w user
	vary := m == 0
	_ = vary
	w.userName = b.s("userName")
	w.userNameSet = true
	return w
}
func verifEq_user(a, w user) bool {
	r := true
	r = verifAnd(r, a.userName == w.userName)
	r = verifAnd(r, a.userNameSet == w.userNameSet)
	return r
}
