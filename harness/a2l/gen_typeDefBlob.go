// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_typeDefBlob = 4

// typeDefBlob: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_typeDefBlob(b *verifB, m int) typeDefBlob {
	var w typeDefBlob
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.longIdentifier = b.s("longIdentifier")
	w.longIdentifierSet = true
	w.size = b.u32("size")
	w.sizeSet = true
	k := m - 1
	all, rev := m == verifModes_typeDefBlob-2, m == verifModes_typeDefBlob-1
	pair, first, second, nested := m >= verifModes_typeDefBlob, -1, -1, m-verifModes_typeDefBlob-1
	if pair && nested < 0 {
		first, second = (m-verifModes_typeDefBlob)/1, (m-verifModes_typeDefBlob)%1
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 1; i++ {
		o := i
		if rev {
			o = 0 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ADDRESS_TYPE")
				w.addressType = AddrTypeEnum(b.e("addressType", verifE_AddrTypeEnum, sub == 0))
			}
		}
	}
	b.t("/end TYPEDEF_BLOB")
	return w
}
func verifEq_typeDefBlob(a, w typeDefBlob) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.longIdentifier == w.longIdentifier)
	r = verifAnd(r, a.longIdentifierSet == w.longIdentifierSet)
	r = verifAnd(r, a.size == w.size)
	r = verifAnd(r, a.sizeSet == w.sizeSet)
	r = verifAnd(r, a.addressType == w.addressType)
	return r
}
