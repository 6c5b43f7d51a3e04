// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_frame = 5
const verifPairs_frame = 4

// frame: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_frame(b *verifB, m int) frame {
	var w frame
	vary := m == 0
	_ = vary
	w.name = b.s("name")
	w.nameSet = true
	w.longIdentifier = b.s("longIdentifier")
	w.longIdentifierSet = true
	w.scalingUnit = b.u16("scalingUnit")
	w.scalingUnitSet = true
	w.rate = b.u32("rate")
	w.rateSet = true
	k := m - 1
	all, rev := m == verifModes_frame-2, m == verifModes_frame-1
	pair, first, second, nested := m >= verifModes_frame, -1, -1, m-verifModes_frame-4
	if pair && nested < 0 {
		first, second = (m-verifModes_frame)/2, (m-verifModes_frame)%2
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 2; i++ {
		o := i
		if rev {
			o = 1 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FRAME_MEASUREMENT")
				w.frameMeasurement = verifMk_frameMeasurement(b, sub)
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 2 {
				sub := k - 1
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin IF_DATA")
				w.ifData = append(w.ifData, verifMk_IfData(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin IF_DATA")
					w.ifData = append(w.ifData, verifMk_IfData(b, -1))
				}
			}
		}
	}
	b.t("/end FRAME")
	return w
}
func verifEq_frame(a, w frame) bool {
	r := true
	r = verifAnd(r, a.name == w.name)
	r = verifAnd(r, a.nameSet == w.nameSet)
	r = verifAnd(r, a.longIdentifier == w.longIdentifier)
	r = verifAnd(r, a.longIdentifierSet == w.longIdentifierSet)
	r = verifAnd(r, a.scalingUnit == w.scalingUnit)
	r = verifAnd(r, a.scalingUnitSet == w.scalingUnitSet)
	r = verifAnd(r, a.rate == w.rate)
	r = verifAnd(r, a.rateSet == w.rateSet)
	r = verifAnd(r, verifEq_frameMeasurement(a.frameMeasurement, w.frameMeasurement))
	r = verifAnd(r, len(a.ifData) == len(w.ifData))
	for i := 0; i < len(a.ifData) && i < len(w.ifData); i++ {
		r = verifAnd(r, verifEq_IfData(a.ifData[i], w.ifData[i]))
	}
	return r
}

const verifModes_frameMeasurement = 1

// frameMeasurement: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_frameMeasurement(b *verifB, m int) frameMeasurement {
	var w frameMeasurement
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.identifier = append(w.identifier, b.s("identifier"))
	}
	w.identifierSet = true
	return w
}
func verifEq_frameMeasurement(a, w frameMeasurement) bool {
	r := true
	r = verifAnd(r, len(a.identifier) == len(w.identifier))
	for i := 0; i < len(a.identifier) && i < len(w.identifier); i++ {
		r = verifAnd(r, a.identifier[i] == w.identifier[i])
	}
	r = verifAnd(r, a.identifierSet == w.identifierSet)
	return r
}
