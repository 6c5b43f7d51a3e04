// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_transformer = 5
const verifPairs_transformer = 4

// transformer: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_transformer(b *verifB, m int) transformer {
	var w transformer
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.version = b.s("version")
	w.versionSet = true
	w.executable32 = b.s("executable32")
	w.executable32Set = true
	w.executable64 = b.s("executable64")
	w.executable64Set = true
	w.timeOut = b.u32("timeOut")
	w.timeOutSet = true
	w.trigger = triggerEnum(b.e("trigger", verifE_TriggerEnum, vary))
	w.triggerSet = true
	w.inverseTransformer = b.s("inverseTransformer")
	w.inverseTransformerSet = true
	k := m - 1
	all, rev := m == verifModes_transformer-2, m == verifModes_transformer-1
	pair, first, second, nested := m >= verifModes_transformer, -1, -1, m-verifModes_transformer-4
	if pair && nested < 0 {
		first, second = (m-verifModes_transformer)/2, (m-verifModes_transformer)%2
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 2; i++ {
		o := i
		if rev {
			o = 1 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin TRANSFORMER_IN_OBJECTS")
				w.transformerInObjects = verifMk_transformerInObject(b, sub)
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 2 {
				sub := k - 1
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin TRANSFORMER_OUT_OBJECTS")
				w.transformerOutObjects = verifMk_transformerOutObject(b, sub)
			}
		}
	}
	b.t("/end TRANSFORMER")
	return w
}
func verifEq_transformer(a, w transformer) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.version == w.version)
	r = verifAnd(r, a.versionSet == w.versionSet)
	r = verifAnd(r, a.executable32 == w.executable32)
	r = verifAnd(r, a.executable32Set == w.executable32Set)
	r = verifAnd(r, a.executable64 == w.executable64)
	r = verifAnd(r, a.executable64Set == w.executable64Set)
	r = verifAnd(r, a.timeOut == w.timeOut)
	r = verifAnd(r, a.timeOutSet == w.timeOutSet)
	r = verifAnd(r, a.trigger == w.trigger)
	r = verifAnd(r, a.triggerSet == w.triggerSet)
	r = verifAnd(r, a.inverseTransformer == w.inverseTransformer)
	r = verifAnd(r, a.inverseTransformerSet == w.inverseTransformerSet)
	r = verifAnd(r, verifEq_transformerInObject(a.transformerInObjects, w.transformerInObjects))
	r = verifAnd(r, verifEq_transformerOutObject(a.transformerOutObjects, w.transformerOutObjects))
	return r
}

const verifModes_transformerInObject = 1

// transformerInObject: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_transformerInObject(b *verifB, m int) transformerInObject {
	var w transformerInObject
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.identifier = append(w.identifier, b.s("identifier"))
	}
	w.identifierSet = true
	b.t("/end TRANSFORMER_IN_OBJECTS")
	return w
}
func verifEq_transformerInObject(a, w transformerInObject) bool {
	r := true
	r = verifAnd(r, len(a.identifier) == len(w.identifier))
	for i := 0; i < len(a.identifier) && i < len(w.identifier); i++ {
		r = verifAnd(r, a.identifier[i] == w.identifier[i])
	}
	r = verifAnd(r, a.identifierSet == w.identifierSet)
	return r
}

const verifModes_transformerOutObject = 1

// transformerOutObject: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_transformerOutObject(b *verifB, m int) transformerOutObject {
	var w transformerOutObject
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.identifier = append(w.identifier, b.s("identifier"))
	}
	w.identifierSet = true
	b.t("/end TRANSFORMER_OUT_OBJECTS")
	return w
}
func verifEq_transformerOutObject(a, w transformerOutObject) bool {
	r := true
	r = verifAnd(r, len(a.identifier) == len(w.identifier))
	for i := 0; i < len(a.identifier) && i < len(w.identifier); i++ {
		r = verifAnd(r, a.identifier[i] == w.identifier[i])
	}
	r = verifAnd(r, a.identifierSet == w.identifierSet)
	return r
}
