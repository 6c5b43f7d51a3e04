// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_consistentExchangeKeyword = 1

// consistentExchangeKeyword: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_consistentExchangeKeyword(b *verifB, m int) consistentExchangeKeyword {
	var w consistentExchangeKeyword
	vary := m == 0
	_ = vary
	w.value, w.valueSet = true, true
	return w
}
func verifEq_consistentExchangeKeyword(a, w consistentExchangeKeyword) bool {
	r := true
	r = verifAnd(r, a.value == w.value)
	r = verifAnd(r, a.valueSet == w.valueSet)
	return r
}

const verifModes_structureComponent = 7
const verifPairs_structureComponent = 16

// structureComponent: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_structureComponent(b *verifB, m int) structureComponent {
	var w structureComponent
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.typeDefName = b.s("typeDefName")
	w.typeDefNameSet = true
	w.addressOffset = b.s("addressOffset")
	w.addressOffsetSet = true
	k := m - 1
	all, rev := m == verifModes_structureComponent-2, m == verifModes_structureComponent-1
	pair, first, second, nested := m >= verifModes_structureComponent, -1, -1, m-verifModes_structureComponent-16
	if pair && nested < 0 {
		first, second = (m-verifModes_structureComponent)/4, (m-verifModes_structureComponent)%4
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 4; i++ {
		o := i
		if rev {
			o = 3 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ADDRESS_TYPE")
				w.addressType = AddrTypeEnum(b.e("addressType", verifE_AddrTypeEnum, sub == 0))
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 2 {
				sub := k - 1
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("LAYOUT")
				w.layout = verifMk_layout(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 2 && k < 3 {
				sub := k - 2
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("MATRIX_DIM")
				w.matrixDim = verifMk_MatrixDim(b, sub)
			}
		case 3:
			if all || rev || k == -2 || k >= 3 && k < 4 {
				sub := k - 3
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SYMBOL_TYPE_LINK")
				w.symbolTypeLink = verifMk_symbolTypeLink(b, sub)
			}
		}
	}
	b.t("/end STRUCTURE_COMPONENT")
	return w
}
func verifEq_structureComponent(a, w structureComponent) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.typeDefName == w.typeDefName)
	r = verifAnd(r, a.typeDefNameSet == w.typeDefNameSet)
	r = verifAnd(r, a.addressOffset == w.addressOffset)
	r = verifAnd(r, a.addressOffsetSet == w.addressOffsetSet)
	r = verifAnd(r, a.addressType == w.addressType)
	r = verifAnd(r, verifEq_layout(a.layout, w.layout))
	r = verifAnd(r, verifEq_MatrixDim(a.matrixDim, w.matrixDim))
	r = verifAnd(r, verifEq_symbolTypeLink(a.symbolTypeLink, w.symbolTypeLink))
	return r
}

const verifModes_symbolTypeLink = 1

// symbolTypeLink: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_symbolTypeLink(b *verifB, m int) symbolTypeLink {
	var w symbolTypeLink
	vary := m == 0
	_ = vary
	w.symbolName = b.s("symbolName")
	return w
}
func verifEq_symbolTypeLink(a, w symbolTypeLink) bool {
	r := true
	r = verifAnd(r, a.symbolName == w.symbolName)
	return r
}

const verifModes_typeDefStructure = 13
const verifPairs_typeDefStructure = 32

// typeDefStructure: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_typeDefStructure(b *verifB, m int) typeDefStructure {
	var w typeDefStructure
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.longIdentifier = b.s("longIdentifier")
	w.longIdentifierSet = true
	w.size = b.u32("size")
	w.sizeSet = true
	k := m - 1
	all, rev := m == verifModes_typeDefStructure-2, m == verifModes_typeDefStructure-1
	pair, first, second, nested := m >= verifModes_typeDefStructure, -1, -1, m-verifModes_typeDefStructure-16
	if pair && nested < 0 {
		first, second = (m-verifModes_typeDefStructure)/4, (m-verifModes_typeDefStructure)%4
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 4; i++ {
		o := i
		if rev {
			o = 3 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ADDRESS_TYPE")
				w.addressType = AddrTypeEnum(b.e("addressType", verifE_AddrTypeEnum, sub == 0))
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 2 {
				sub := k - 1
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("CONSISTENT_EXCHANGE")
				w.consistentExchange = verifMk_consistentExchangeKeyword(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 2 && k < 9 || pair && nested >= 0 && nested < 16 {
				sub := k - 2
				if all || rev {
					sub = verifModes_structureComponent - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
					if k != -2 {
						sub = verifModes_structureComponent + nested - 0
					}
				}
				_ = sub
				b.t("/begin STRUCTURE_COMPONENT")
				w.structureComponent = append(w.structureComponent, verifMk_structureComponent(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin STRUCTURE_COMPONENT")
					w.structureComponent = append(w.structureComponent, verifMk_structureComponent(b, -1))
				}
			}
		case 3:
			if all || rev || k == -2 || k >= 9 && k < 10 {
				sub := k - 9
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SYMBOL_TYPE_LINK")
				w.symbolTypeLink = verifMk_symbolTypeLink(b, sub)
			}
		}
	}
	b.t("/end TYPEDEF_STRUCTURE")
	return w
}
func verifEq_typeDefStructure(a, w typeDefStructure) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.longIdentifier == w.longIdentifier)
	r = verifAnd(r, a.longIdentifierSet == w.longIdentifierSet)
	r = verifAnd(r, a.size == w.size)
	r = verifAnd(r, a.sizeSet == w.sizeSet)
	r = verifAnd(r, a.addressType == w.addressType)
	r = verifAnd(r, verifEq_consistentExchangeKeyword(a.consistentExchange, w.consistentExchange))
	r = verifAnd(r, len(a.structureComponent) == len(w.structureComponent))
	for i := 0; i < len(a.structureComponent) && i < len(w.structureComponent); i++ {
		r = verifAnd(r, verifEq_structureComponent(a.structureComponent[i], w.structureComponent[i]))
	}
	r = verifAnd(r, verifEq_symbolTypeLink(a.symbolTypeLink, w.symbolTypeLink))
	return r
}
