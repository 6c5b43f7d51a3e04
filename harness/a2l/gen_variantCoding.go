// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_varAddress = 1

// varAddress: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_varAddress(b *verifB, m int) varAddress {
	var w varAddress
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.address = append(w.address, b.s("address"))
	}
	w.addressSet = true
	b.t("/end VAR_ADDRESS")
	return w
}
func verifEq_varAddress(a, w varAddress) bool {
	r := true
	r = verifAnd(r, len(a.address) == len(w.address))
	for i := 0; i < len(a.address) && i < len(w.address); i++ {
		r = verifAnd(r, a.address[i] == w.address[i])
	}
	r = verifAnd(r, a.addressSet == w.addressSet)
	return r
}

const verifModes_varCharacteristic = 4

// varCharacteristic: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_varCharacteristic(b *verifB, m int) varCharacteristic {
	var w varCharacteristic
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.identCriterionName = append(w.identCriterionName, b.s("identCriterionName"))
	}
	w.identCriterionNameSet = true
	k := m - 1
	all, rev := m == verifModes_varCharacteristic-2, m == verifModes_varCharacteristic-1
	pair, first, second, nested := m >= verifModes_varCharacteristic, -1, -1, m-verifModes_varCharacteristic-1
	if pair && nested < 0 {
		first, second = (m-verifModes_varCharacteristic)/1, (m-verifModes_varCharacteristic)%1
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 1; i++ {
		o := i
		if rev {
			o = 0 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin VAR_ADDRESS")
				w.varAddress = append(w.varAddress, verifMk_varAddress(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin VAR_ADDRESS")
					w.varAddress = append(w.varAddress, verifMk_varAddress(b, -1))
				}
			}
		}
	}
	b.t("/end VAR_CHARACTERISTIC")
	return w
}
func verifEq_varCharacteristic(a, w varCharacteristic) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, len(a.identCriterionName) == len(w.identCriterionName))
	for i := 0; i < len(a.identCriterionName) && i < len(w.identCriterionName); i++ {
		r = verifAnd(r, a.identCriterionName[i] == w.identCriterionName[i])
	}
	r = verifAnd(r, a.identCriterionNameSet == w.identCriterionNameSet)
	r = verifAnd(r, len(a.varAddress) == len(w.varAddress))
	for i := 0; i < len(a.varAddress) && i < len(w.varAddress); i++ {
		r = verifAnd(r, verifEq_varAddress(a.varAddress[i], w.varAddress[i]))
	}
	return r
}

const verifModes_varCriterion = 5
const verifPairs_varCriterion = 4

// varCriterion: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_varCriterion(b *verifB, m int) varCriterion {
	var w varCriterion
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.longIdentifier = b.s("longIdentifier")
	w.longIdentifierSet = true
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.value = append(w.value, b.s("value"))
	}
	w.valueSet = true
	k := m - 1
	all, rev := m == verifModes_varCriterion-2, m == verifModes_varCriterion-1
	pair, first, second, nested := m >= verifModes_varCriterion, -1, -1, m-verifModes_varCriterion-4
	if pair && nested < 0 {
		first, second = (m-verifModes_varCriterion)/2, (m-verifModes_varCriterion)%2
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 2; i++ {
		o := i
		if rev {
			o = 1 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("VAR_MEASUREMENT")
				w.varMeasurement = verifMk_varMeasurement(b, sub)
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 2 {
				sub := k - 1
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("VAR_SELECTION_CHARACTERISTIC")
				w.varSelectionCharacteristic = verifMk_varSelectionCharacteristic(b, sub)
			}
		}
	}
	b.t("/end VAR_CRITERION")
	return w
}
func verifEq_varCriterion(a, w varCriterion) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.longIdentifier == w.longIdentifier)
	r = verifAnd(r, a.longIdentifierSet == w.longIdentifierSet)
	r = verifAnd(r, len(a.value) == len(w.value))
	for i := 0; i < len(a.value) && i < len(w.value); i++ {
		r = verifAnd(r, a.value[i] == w.value[i])
	}
	r = verifAnd(r, a.valueSet == w.valueSet)
	r = verifAnd(r, verifEq_varMeasurement(a.varMeasurement, w.varMeasurement))
	r = verifAnd(r, verifEq_varSelectionCharacteristic(a.varSelectionCharacteristic, w.varSelectionCharacteristic))
	return r
}

const verifModes_varForbiddenComb = 1

// varForbiddenComb: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_varForbiddenComb(b *verifB, m int) varForbiddenComb {
	var w varForbiddenComb
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.criterionName = append(w.criterionName, b.s("criterionName"))
		w.criterionValue = append(w.criterionValue, b.s("criterionValue"))
	}
	w.criterionNameSet, w.criterionValueSet = true, true
	b.t("/end VAR_FORBIDDEN_COMB")
	return w
}
func verifEq_varForbiddenComb(a, w varForbiddenComb) bool {
	r := true
	r = verifAnd(r, len(a.criterionName) == len(w.criterionName))
	for i := 0; i < len(a.criterionName) && i < len(w.criterionName); i++ {
		r = verifAnd(r, a.criterionName[i] == w.criterionName[i])
	}
	r = verifAnd(r, a.criterionNameSet == w.criterionNameSet)
	r = verifAnd(r, len(a.criterionValue) == len(w.criterionValue))
	for i := 0; i < len(a.criterionValue) && i < len(w.criterionValue); i++ {
		r = verifAnd(r, a.criterionValue[i] == w.criterionValue[i])
	}
	r = verifAnd(r, a.criterionValueSet == w.criterionValueSet)
	return r
}

const verifModes_varMeasurement = 1

// varMeasurement: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_varMeasurement(b *verifB, m int) varMeasurement {
	var w varMeasurement
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	return w
}
func verifEq_varMeasurement(a, w varMeasurement) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	return r
}

const verifModes_varNaming = 1

// varNaming: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_varNaming(b *verifB, m int) varNaming {
	var w varNaming
	vary := m == 0
	_ = vary
	w.tag = tagEnum(b.e("tag", verifE_TagEnum, vary))
	w.tagSet = true
	return w
}
func verifEq_varNaming(a, w varNaming) bool {
	r := true
	r = verifAnd(r, a.tag == w.tag)
	r = verifAnd(r, a.tagSet == w.tagSet)
	return r
}

const verifModes_varSelectionCharacteristic = 1

// varSelectionCharacteristic: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_varSelectionCharacteristic(b *verifB, m int) varSelectionCharacteristic {
	var w varSelectionCharacteristic
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	return w
}
func verifEq_varSelectionCharacteristic(a, w varSelectionCharacteristic) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	return r
}

const verifModes_varSeparator = 1

// varSeparator: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_varSeparator(b *verifB, m int) varSeparator {
	var w varSeparator
	vary := m == 0
	_ = vary
	w.separator = b.s("separator")
	w.separatorSet = true
	return w
}
func verifEq_varSeparator(a, w varSeparator) bool {
	r := true
	r = verifAnd(r, a.separator == w.separator)
	r = verifAnd(r, a.separatorSet == w.separatorSet)
	return r
}

const verifModes_variantCoding = 15
const verifPairs_variantCoding = 29

// variantCoding: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_variantCoding(b *verifB, m int) variantCoding {
	var w variantCoding
	vary := m == 0
	_ = vary
	k := m - 1
	all, rev := m == verifModes_variantCoding-2, m == verifModes_variantCoding-1
	pair, first, second, nested := m >= verifModes_variantCoding, -1, -1, m-verifModes_variantCoding-25
	if pair && nested < 0 {
		first, second = (m-verifModes_variantCoding)/5, (m-verifModes_variantCoding)%5
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 5; i++ {
		o := i
		if rev {
			o = 4 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 4 {
				sub := k - 0
				if all || rev {
					sub = verifModes_varCharacteristic - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin VAR_CHARACTERISTIC")
				w.varCharacteristic = append(w.varCharacteristic, verifMk_varCharacteristic(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin VAR_CHARACTERISTIC")
					w.varCharacteristic = append(w.varCharacteristic, verifMk_varCharacteristic(b, -1))
				}
			}
		case 1:
			if all || rev || k == -2 || k >= 4 && k < 9 || pair && nested >= 0 && nested < 4 {
				sub := k - 4
				if all || rev {
					sub = verifModes_varCriterion - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
					if k != -2 {
						sub = verifModes_varCriterion + nested - 0
					}
				}
				_ = sub
				b.t("/begin VAR_CRITERION")
				w.varCriterion = append(w.varCriterion, verifMk_varCriterion(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin VAR_CRITERION")
					w.varCriterion = append(w.varCriterion, verifMk_varCriterion(b, -1))
				}
			}
		case 2:
			if all || rev || k == -2 || k >= 9 && k < 10 {
				sub := k - 9
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin VAR_FORBIDDEN_COMB")
				w.varForbiddenComb = append(w.varForbiddenComb, verifMk_varForbiddenComb(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin VAR_FORBIDDEN_COMB")
					w.varForbiddenComb = append(w.varForbiddenComb, verifMk_varForbiddenComb(b, -1))
				}
			}
		case 3:
			if all || rev || k == -2 || k >= 10 && k < 11 {
				sub := k - 10
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("VAR_NAMING")
				w.varNaming = verifMk_varNaming(b, sub)
			}
		case 4:
			if all || rev || k == -2 || k >= 11 && k < 12 {
				sub := k - 11
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("VAR_SEPARATOR")
				w.varSeparator = verifMk_varSeparator(b, sub)
				w.varSeparatorSet = true
			}
		}
	}
	b.t("/end VARIANT_CODING")
	return w
}
func verifEq_variantCoding(a, w variantCoding) bool {
	r := true
	r = verifAnd(r, len(a.varCharacteristic) == len(w.varCharacteristic))
	for i := 0; i < len(a.varCharacteristic) && i < len(w.varCharacteristic); i++ {
		r = verifAnd(r, verifEq_varCharacteristic(a.varCharacteristic[i], w.varCharacteristic[i]))
	}
	r = verifAnd(r, len(a.varCriterion) == len(w.varCriterion))
	for i := 0; i < len(a.varCriterion) && i < len(w.varCriterion); i++ {
		r = verifAnd(r, verifEq_varCriterion(a.varCriterion[i], w.varCriterion[i]))
	}
	r = verifAnd(r, len(a.varForbiddenComb) == len(w.varForbiddenComb))
	for i := 0; i < len(a.varForbiddenComb) && i < len(w.varForbiddenComb); i++ {
		r = verifAnd(r, verifEq_varForbiddenComb(a.varForbiddenComb[i], w.varForbiddenComb[i]))
	}
	r = verifAnd(r, verifEq_varNaming(a.varNaming, w.varNaming))
	r = verifAnd(r, verifEq_varSeparator(a.varSeparator, w.varSeparator))
	r = verifAnd(r, a.varSeparatorSet == w.varSeparatorSet)
	return r
}
