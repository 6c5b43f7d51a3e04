// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_arComponent = 4

// arComponent: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_arComponent(b *verifB, m int) arComponent {
	var w arComponent
	vary := m == 0
	_ = vary
	w.componentType = b.s("componentType")
	w.componentTypeSet = true
	k := m - 1
	all, rev := m == verifModes_arComponent-2, m == verifModes_arComponent-1
	pair, first, second, nested := m >= verifModes_arComponent, -1, -1, m-verifModes_arComponent-1
	if pair && nested < 0 {
		first, second = (m-verifModes_arComponent)/1, (m-verifModes_arComponent)%1
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 1; i++ {
		o := i
		if rev {
			o = 0 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("AR_PROTOTYPE_OF")
				w.arPrototypeOf = verifMk_arPrototypeOf(b, sub)
			}
		}
	}
	b.t("/end AR_COMPONENT")
	return w
}
func verifEq_arComponent(a, w arComponent) bool {
	r := true
	r = verifAnd(r, a.componentType == w.componentType)
	r = verifAnd(r, a.componentTypeSet == w.componentTypeSet)
	r = verifAnd(r, verifEq_arPrototypeOf(a.arPrototypeOf, w.arPrototypeOf))
	return r
}

const verifModes_arPrototypeOf = 1

// arPrototypeOf: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_arPrototypeOf(b *verifB, m int) arPrototypeOf {
	var w arPrototypeOf
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	return w
}
func verifEq_arPrototypeOf(a, w arPrototypeOf) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	return r
}

const verifModes_defCharacteristic = 1

// defCharacteristic: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_defCharacteristic(b *verifB, m int) defCharacteristic {
	var w defCharacteristic
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.identifier = append(w.identifier, b.s("identifier"))
	}
	w.identifierSet = true
	b.t("/end DEF_CHARACTERISTIC")
	return w
}
func verifEq_defCharacteristic(a, w defCharacteristic) bool {
	r := true
	r = verifAnd(r, len(a.identifier) == len(w.identifier))
	for i := 0; i < len(a.identifier) && i < len(w.identifier); i++ {
		r = verifAnd(r, a.identifier[i] == w.identifier[i])
	}
	r = verifAnd(r, a.identifierSet == w.identifierSet)
	return r
}

const verifModes_function = 21
const verifPairs_function = 109

// function: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_function(b *verifB, m int) function {
	var w function
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.longIdentifier = b.s("longIdentifier")
	w.longIdentifierSet = true
	k := m - 1
	all, rev := m == verifModes_function-2, m == verifModes_function-1
	pair, first, second, nested := m >= verifModes_function, -1, -1, m-verifModes_function-100
	if pair && nested < 0 {
		first, second = (m-verifModes_function)/10, (m-verifModes_function)%10
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 10; i++ {
		o := i
		if rev {
			o = 9 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 6 || pair && nested >= 0 && nested < 9 {
				sub := k - 0
				if all || rev {
					sub = verifModes_annotation - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
					if k != -2 {
						sub = verifModes_annotation + nested - 0
					}
				}
				_ = sub
				b.t("/begin ANNOTATION")
				w.annotation = append(w.annotation, verifMk_annotation(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin ANNOTATION")
					w.annotation = append(w.annotation, verifMk_annotation(b, -1))
				}
			}
		case 1:
			if all || rev || k == -2 || k >= 6 && k < 10 {
				sub := k - 6
				if all || rev {
					sub = verifModes_arComponent - 2
					if rev {
						sub++
					}
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin AR_COMPONENT")
				w.arComponent = verifMk_arComponent(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 10 && k < 11 {
				sub := k - 10
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin DEF_CHARACTERISTIC")
				w.defCharacteristic = verifMk_defCharacteristic(b, sub)
			}
		case 3:
			if all || rev || k == -2 || k >= 11 && k < 12 {
				sub := k - 11
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FUNCTION_VERSION")
				w.functionVersion = verifMk_functionVersion(b, sub)
			}
		case 4:
			if all || rev || k == -2 || k >= 12 && k < 13 {
				sub := k - 12
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin IF_DATA")
				w.ifData = append(w.ifData, verifMk_IfData(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin IF_DATA")
					w.ifData = append(w.ifData, verifMk_IfData(b, -1))
				}
			}
		case 5:
			if all || rev || k == -2 || k >= 13 && k < 14 {
				sub := k - 13
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin IN_MEASUREMENT")
				w.inMeasurement = verifMk_inMeasurement(b, sub)
			}
		case 6:
			if all || rev || k == -2 || k >= 14 && k < 15 {
				sub := k - 14
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin LOC_MEASUREMENT")
				w.locMeasurement = verifMk_locMeasurement(b, sub)
			}
		case 7:
			if all || rev || k == -2 || k >= 15 && k < 16 {
				sub := k - 15
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin OUT_MEASUREMENT")
				w.outMeasurement = verifMk_outMeasurement(b, sub)
			}
		case 8:
			if all || rev || k == -2 || k >= 16 && k < 17 {
				sub := k - 16
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin REF_CHARACTERISTIC")
				w.refCharacteristic = verifMk_refCharacteristic(b, sub)
			}
		case 9:
			if all || rev || k == -2 || k >= 17 && k < 18 {
				sub := k - 17
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin SUB_FUNCTION")
				w.subFunction = verifMk_subFunction(b, sub)
			}
		}
	}
	b.t("/end FUNCTION")
	return w
}
func verifEq_function(a, w function) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.longIdentifier == w.longIdentifier)
	r = verifAnd(r, a.longIdentifierSet == w.longIdentifierSet)
	r = verifAnd(r, len(a.annotation) == len(w.annotation))
	for i := 0; i < len(a.annotation) && i < len(w.annotation); i++ {
		r = verifAnd(r, verifEq_annotation(a.annotation[i], w.annotation[i]))
	}
	r = verifAnd(r, verifEq_arComponent(a.arComponent, w.arComponent))
	r = verifAnd(r, verifEq_defCharacteristic(a.defCharacteristic, w.defCharacteristic))
	r = verifAnd(r, verifEq_functionVersion(a.functionVersion, w.functionVersion))
	r = verifAnd(r, len(a.ifData) == len(w.ifData))
	for i := 0; i < len(a.ifData) && i < len(w.ifData); i++ {
		r = verifAnd(r, verifEq_IfData(a.ifData[i], w.ifData[i]))
	}
	r = verifAnd(r, verifEq_inMeasurement(a.inMeasurement, w.inMeasurement))
	r = verifAnd(r, verifEq_locMeasurement(a.locMeasurement, w.locMeasurement))
	r = verifAnd(r, verifEq_outMeasurement(a.outMeasurement, w.outMeasurement))
	r = verifAnd(r, verifEq_refCharacteristic(a.refCharacteristic, w.refCharacteristic))
	r = verifAnd(r, verifEq_subFunction(a.subFunction, w.subFunction))
	return r
}

const verifModes_functionVersion = 1

// functionVersion: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_functionVersion(b *verifB, m int) functionVersion {
	var w functionVersion
	vary := m == 0
	_ = vary
	w.versionIdentifier = b.s("versionIdentifier")
	w.versionIdentifierSet = true
	return w
}
func verifEq_functionVersion(a, w functionVersion) bool {
	r := true
	r = verifAnd(r, a.versionIdentifier == w.versionIdentifier)
	r = verifAnd(r, a.versionIdentifierSet == w.versionIdentifierSet)
	return r
}

const verifModes_inMeasurement = 1

// inMeasurement: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_inMeasurement(b *verifB, m int) inMeasurement {
	var w inMeasurement
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.identifier = append(w.identifier, b.s("identifier"))
	}
	w.identifierSet = true
	b.t("/end IN_MEASUREMENT")
	return w
}
func verifEq_inMeasurement(a, w inMeasurement) bool {
	r := true
	r = verifAnd(r, len(a.identifier) == len(w.identifier))
	for i := 0; i < len(a.identifier) && i < len(w.identifier); i++ {
		r = verifAnd(r, a.identifier[i] == w.identifier[i])
	}
	r = verifAnd(r, a.identifierSet == w.identifierSet)
	return r
}

const verifModes_locMeasurement = 1

// locMeasurement: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_locMeasurement(b *verifB, m int) locMeasurement {
	var w locMeasurement
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.identifier = append(w.identifier, b.s("identifier"))
	}
	w.identifierSet = true
	b.t("/end LOC_MEASUREMENT")
	return w
}
func verifEq_locMeasurement(a, w locMeasurement) bool {
	r := true
	r = verifAnd(r, len(a.identifier) == len(w.identifier))
	for i := 0; i < len(a.identifier) && i < len(w.identifier); i++ {
		r = verifAnd(r, a.identifier[i] == w.identifier[i])
	}
	r = verifAnd(r, a.identifierSet == w.identifierSet)
	return r
}

const verifModes_outMeasurement = 1

// outMeasurement: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_outMeasurement(b *verifB, m int) outMeasurement {
	var w outMeasurement
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.identifier = append(w.identifier, b.s("identifier"))
	}
	w.identifierSet = true
	b.t("/end OUT_MEASUREMENT")
	return w
}
func verifEq_outMeasurement(a, w outMeasurement) bool {
	r := true
	r = verifAnd(r, len(a.identifier) == len(w.identifier))
	for i := 0; i < len(a.identifier) && i < len(w.identifier); i++ {
		r = verifAnd(r, a.identifier[i] == w.identifier[i])
	}
	r = verifAnd(r, a.identifierSet == w.identifierSet)
	return r
}

const verifModes_subFunction = 1

// subFunction: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_subFunction(b *verifB, m int) subFunction {
	var w subFunction
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.identifier = append(w.identifier, b.s("identifier"))
	}
	w.identifierSet = true
	b.t("/end SUB_FUNCTION")
	return w
}
func verifEq_subFunction(a, w subFunction) bool {
	r := true
	r = verifAnd(r, len(a.identifier) == len(w.identifier))
	for i := 0; i < len(a.identifier) && i < len(w.identifier); i++ {
		r = verifAnd(r, a.identifier[i] == w.identifier[i])
	}
	r = verifAnd(r, a.identifierSet == w.identifierSet)
	return r
}
