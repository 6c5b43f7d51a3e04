// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_siExponents = 1

// siExponents: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_siExponents(b *verifB, m int) siExponents {
	var w siExponents
	vary := m == 0
	_ = vary
	w.length = b.i16("length")
	w.lengthSet = true
	w.mass = b.i16("mass")
	w.massSet = true
	w.time = b.i16("time")
	w.timeSet = true
	w.electricCurrent = b.i16("electricCurrent")
	w.electricCurrentSet = true
	w.temperature = b.i16("temperature")
	w.temperatureSet = true
	w.amountOfSubstance = b.i16("amountOfSubstance")
	w.amountOfSubstanceSet = true
	w.luminousIntensity = b.i16("luminousIntensity")
	w.luminousIntensitySet = true
	return w
}
func verifEq_siExponents(a, w siExponents) bool {
	r := true
	r = verifAnd(r, a.length == w.length)
	r = verifAnd(r, a.lengthSet == w.lengthSet)
	r = verifAnd(r, a.mass == w.mass)
	r = verifAnd(r, a.massSet == w.massSet)
	r = verifAnd(r, a.time == w.time)
	r = verifAnd(r, a.timeSet == w.timeSet)
	r = verifAnd(r, a.electricCurrent == w.electricCurrent)
	r = verifAnd(r, a.electricCurrentSet == w.electricCurrentSet)
	r = verifAnd(r, a.temperature == w.temperature)
	r = verifAnd(r, a.temperatureSet == w.temperatureSet)
	r = verifAnd(r, a.amountOfSubstance == w.amountOfSubstance)
	r = verifAnd(r, a.amountOfSubstanceSet == w.amountOfSubstanceSet)
	r = verifAnd(r, a.luminousIntensity == w.luminousIntensity)
	r = verifAnd(r, a.luminousIntensitySet == w.luminousIntensitySet)
	return r
}

const verifModes_unit = 6
const verifPairs_unit = 9

// unit: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_unit(b *verifB, m int) unit {
	var w unit
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.longIdentifier = b.s("longIdentifier")
	w.longIdentifierSet = true
	w.display = b.s("display")
	w.displaySet = true
	w.Type = TypeEnum(b.e("Type", verifE_TypeEnum, vary))
	w.TypeSet = true
	k := m - 1
	all, rev := m == verifModes_unit-2, m == verifModes_unit-1
	pair, first, second, nested := m >= verifModes_unit, -1, -1, m-verifModes_unit-9
	if pair && nested < 0 {
		first, second = (m-verifModes_unit)/3, (m-verifModes_unit)%3
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 3; i++ {
		o := i
		if rev {
			o = 2 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("REF_UNIT")
				w.refUnit = verifMk_refUnit(b, sub)
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 2 {
				sub := k - 1
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SI_EXPONENTS")
				w.siExponents = verifMk_siExponents(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 2 && k < 3 {
				sub := k - 2
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("UNIT_CONVERSION")
				w.unitConversion = verifMk_unitConversion(b, sub)
			}
		}
	}
	b.t("/end UNIT")
	return w
}
func verifEq_unit(a, w unit) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.longIdentifier == w.longIdentifier)
	r = verifAnd(r, a.longIdentifierSet == w.longIdentifierSet)
	r = verifAnd(r, a.display == w.display)
	r = verifAnd(r, a.displaySet == w.displaySet)
	r = verifAnd(r, a.Type == w.Type)
	r = verifAnd(r, a.TypeSet == w.TypeSet)
	r = verifAnd(r, verifEq_refUnit(a.refUnit, w.refUnit))
	r = verifAnd(r, verifEq_siExponents(a.siExponents, w.siExponents))
	r = verifAnd(r, verifEq_unitConversion(a.unitConversion, w.unitConversion))
	return r
}

const verifModes_unitConversion = 1

// unitConversion: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_unitConversion(b *verifB, m int) unitConversion {
	var w unitConversion
	vary := m == 0
	_ = vary
	w.gradient = b.f("gradient")
	w.gradientSet = true
	w.offset = b.f("offset")
	w.offsetSet = true
	return w
}
func verifEq_unitConversion(a, w unitConversion) bool {
	r := true
	r = verifAnd(r, a.gradient == w.gradient)
	r = verifAnd(r, a.gradientSet == w.gradientSet)
	r = verifAnd(r, a.offset == w.offset)
	r = verifAnd(r, a.offsetSet == w.offsetSet)
	return r
}
