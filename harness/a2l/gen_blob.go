// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_blob = 17
const verifPairs_blob = 90

// blob: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_blob(b *verifB, m int) blob {
	var w blob
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.longIdentifier = b.s("longIdentifier")
	w.longIdentifierSet = true
	w.address = b.s("address")
	w.addressSet = true
	w.size = b.u32("size")
	w.sizeSet = true
	w.addressType = DIRECT
	k := m - 1
	all, rev := m == verifModes_blob-2, m == verifModes_blob-1
	pair, first, second, nested := m >= verifModes_blob, -1, -1, m-verifModes_blob-81
	if pair && nested < 0 {
		first, second = (m-verifModes_blob)/9, (m-verifModes_blob)%9
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 9; i++ {
		o := i
		if rev {
			o = 8 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 6 || pair && nested >= 0 && nested < 9 {
				sub := k - 0
				if all || rev {
					sub = verifModes_annotation - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
					if k != -2 {
						sub = verifModes_annotation + nested - 0
					}
				}
				_ = sub
				b.t("/begin ANNOTATION")
				w.annotation = append(w.annotation, verifMk_annotation(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin ANNOTATION")
					w.annotation = append(w.annotation, verifMk_annotation(b, -1))
				}
			}
		case 1:
			if all || rev || k == -2 || k >= 6 && k < 7 {
				sub := k - 6
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ADDRESS_TYPE")
				w.addressType = AddrTypeEnum(b.e("addressType", verifE_AddrTypeEnum, sub == 0))
				w.addressTypeSet = true
			}
		case 2:
			if all || rev || k == -2 || k >= 7 && k < 8 {
				sub := k - 7
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("CALIBRATION_ACCESS")
				w.calibrationAccess = calibrationAccessEnum(b.e("calibrationAccess", verifE_CalibrationAccessEnum, sub == 0))
			}
		case 3:
			if all || rev || k == -2 || k >= 8 && k < 9 {
				sub := k - 8
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DISPLAY_IDENTIFIER")
				w.displayIdentifier = verifMk_DisplayIdentifier(b, sub)
			}
		case 4:
			if all || rev || k == -2 || k >= 9 && k < 10 {
				sub := k - 9
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ECU_ADDRESS_EXTENSION")
				w.ecuAddressExtension = verifMk_ecuAddressExtension(b, sub)
			}
		case 5:
			if all || rev || k == -2 || k >= 10 && k < 11 {
				sub := k - 10
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin IF_DATA")
				w.IfData = append(w.IfData, verifMk_IfData(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin IF_DATA")
					w.IfData = append(w.IfData, verifMk_IfData(b, -1))
				}
			}
		case 6:
			if all || rev || k == -2 || k >= 11 && k < 12 {
				sub := k - 11
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MAX_REFRESH")
				w.maxRefresh = verifMk_MaxRefresh(b, sub)
			}
		case 7:
			if all || rev || k == -2 || k >= 12 && k < 13 {
				sub := k - 12
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MODEL_LINK")
				w.modelLink = verifMk_modelLink(b, sub)
			}
		case 8:
			if all || rev || k == -2 || k >= 13 && k < 14 {
				sub := k - 13
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SYMBOL_LINK")
				w.symbolLink = verifMk_symbolLink(b, sub)
			}
		}
	}
	b.t("/end BLOB")
	return w
}
func verifEq_blob(a, w blob) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.longIdentifier == w.longIdentifier)
	r = verifAnd(r, a.longIdentifierSet == w.longIdentifierSet)
	r = verifAnd(r, a.address == w.address)
	r = verifAnd(r, a.addressSet == w.addressSet)
	r = verifAnd(r, a.size == w.size)
	r = verifAnd(r, a.sizeSet == w.sizeSet)
	r = verifAnd(r, a.addressType == w.addressType)
	r = verifAnd(r, a.addressTypeSet == w.addressTypeSet)
	r = verifAnd(r, len(a.annotation) == len(w.annotation))
	for i := 0; i < len(a.annotation) && i < len(w.annotation); i++ {
		r = verifAnd(r, verifEq_annotation(a.annotation[i], w.annotation[i]))
	}
	r = verifAnd(r, a.calibrationAccess == w.calibrationAccess)
	r = verifAnd(r, verifEq_DisplayIdentifier(a.displayIdentifier, w.displayIdentifier))
	r = verifAnd(r, verifEq_ecuAddressExtension(a.ecuAddressExtension, w.ecuAddressExtension))
	r = verifAnd(r, len(a.IfData) == len(w.IfData))
	for i := 0; i < len(a.IfData) && i < len(w.IfData); i++ {
		r = verifAnd(r, verifEq_IfData(a.IfData[i], w.IfData[i]))
	}
	r = verifAnd(r, verifEq_MaxRefresh(a.maxRefresh, w.maxRefresh))
	r = verifAnd(r, verifEq_modelLink(a.modelLink, w.modelLink))
	r = verifAnd(r, verifEq_symbolLink(a.symbolLink, w.symbolLink))
	return r
}
