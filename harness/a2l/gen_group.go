// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_group = 15
const verifPairs_group = 58

// group: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_group(b *verifB, m int) group {
	var w group
	vary := m == 0
	_ = vary
	w.groupName = b.s("groupName")
	w.groupNameSet = true
	w.groupLongIdentifier = b.s("groupLongIdentifier")
	w.groupLongIdentifierSet = true
	k := m - 1
	all, rev := m == verifModes_group-2, m == verifModes_group-1
	pair, first, second, nested := m >= verifModes_group, -1, -1, m-verifModes_group-49
	if pair && nested < 0 {
		first, second = (m-verifModes_group)/7, (m-verifModes_group)%7
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 7; i++ {
		o := i
		if rev {
			o = 6 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 6 || pair && nested >= 0 && nested < 9 {
				sub := k - 0
				if all || rev {
					sub = verifModes_annotation - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
					if k != -2 {
						sub = verifModes_annotation + nested - 0
					}
				}
				_ = sub
				b.t("/begin ANNOTATION")
				w.annotation = append(w.annotation, verifMk_annotation(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin ANNOTATION")
					w.annotation = append(w.annotation, verifMk_annotation(b, -1))
				}
			}
		case 1:
			if all || rev || k == -2 || k >= 6 && k < 7 {
				sub := k - 6
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin FUNCTION_LIST")
				w.functionList = verifMk_FunctionList(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 7 && k < 8 {
				sub := k - 7
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin IF_DATA")
				w.ifData = append(w.ifData, verifMk_IfData(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin IF_DATA")
					w.ifData = append(w.ifData, verifMk_IfData(b, -1))
				}
			}
		case 3:
			if all || rev || k == -2 || k >= 8 && k < 9 {
				sub := k - 8
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin REF_CHARACTERISTIC")
				w.refCharacteristic = verifMk_refCharacteristic(b, sub)
			}
		case 4:
			if all || rev || k == -2 || k >= 9 && k < 10 {
				sub := k - 9
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin REF_MEASUREMENT")
				w.refMeasurement = verifMk_refMeasurement(b, sub)
			}
		case 5:
			if all || rev || k == -2 || k >= 10 && k < 11 {
				sub := k - 10
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ROOT")
				w.root = verifMk_rootKeyword(b, sub)
			}
		case 6:
			if all || rev || k == -2 || k >= 11 && k < 12 {
				sub := k - 11
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin SUB_GROUP")
				w.subGroup = verifMk_subGroup(b, sub)
			}
		}
	}
	b.t("/end GROUP")
	return w
}
func verifEq_group(a, w group) bool {
	r := true
	r = verifAnd(r, a.groupName == w.groupName)
	r = verifAnd(r, a.groupNameSet == w.groupNameSet)
	r = verifAnd(r, a.groupLongIdentifier == w.groupLongIdentifier)
	r = verifAnd(r, a.groupLongIdentifierSet == w.groupLongIdentifierSet)
	r = verifAnd(r, len(a.annotation) == len(w.annotation))
	for i := 0; i < len(a.annotation) && i < len(w.annotation); i++ {
		r = verifAnd(r, verifEq_annotation(a.annotation[i], w.annotation[i]))
	}
	r = verifAnd(r, verifEq_FunctionList(a.functionList, w.functionList))
	r = verifAnd(r, len(a.ifData) == len(w.ifData))
	for i := 0; i < len(a.ifData) && i < len(w.ifData); i++ {
		r = verifAnd(r, verifEq_IfData(a.ifData[i], w.ifData[i]))
	}
	r = verifAnd(r, verifEq_refCharacteristic(a.refCharacteristic, w.refCharacteristic))
	r = verifAnd(r, verifEq_refMeasurement(a.refMeasurement, w.refMeasurement))
	r = verifAnd(r, verifEq_rootKeyword(a.root, w.root))
	r = verifAnd(r, verifEq_subGroup(a.subGroup, w.subGroup))
	return r
}

const verifModes_refMeasurement = 1

// refMeasurement: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_refMeasurement(b *verifB, m int) refMeasurement {
	var w refMeasurement
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.identifier = append(w.identifier, b.s("identifier"))
	}
	w.identifierSet = true
	b.t("/end REF_MEASUREMENT")
	return w
}
func verifEq_refMeasurement(a, w refMeasurement) bool {
	r := true
	r = verifAnd(r, len(a.identifier) == len(w.identifier))
	for i := 0; i < len(a.identifier) && i < len(w.identifier); i++ {
		r = verifAnd(r, a.identifier[i] == w.identifier[i])
	}
	r = verifAnd(r, a.identifierSet == w.identifierSet)
	return r
}

const verifModes_rootKeyword = 1

// rootKeyword: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_rootKeyword(b *verifB, m int) rootKeyword {
	var w rootKeyword
	vary := m == 0
	_ = vary
	w.value, w.valueSet = true, true
	return w
}
func verifEq_rootKeyword(a, w rootKeyword) bool {
	r := true
	r = verifAnd(r, a.value == w.value)
	r = verifAnd(r, a.valueSet == w.valueSet)
	return r
}

const verifModes_subGroup = 1

// subGroup: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_subGroup(b *verifB, m int) subGroup {
	var w subGroup
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.identifier = append(w.identifier, b.s("identifier"))
	}
	w.identifierSet = true
	b.t("/end SUB_GROUP")
	return w
}
func verifEq_subGroup(a, w subGroup) bool {
	r := true
	r = verifAnd(r, len(a.identifier) == len(w.identifier))
	for i := 0; i < len(a.identifier) && i < len(w.identifier); i++ {
		r = verifAnd(r, a.identifier[i] == w.identifier[i])
	}
	r = verifAnd(r, a.identifierSet == w.identifierSet)
	return r
}
