// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_a2ml = 1

// a2ml: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_a2ml(b *verifB, m int) a2ml {
	var w a2ml
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.formatSpecification += " " + b.c()
	}
	w.formatSpecificationSet = true
	b.t("/end A2ML")
	return w
}
func verifEq_a2ml(a, w a2ml) bool {
	r := true
	r = verifAnd(r, a.formatSpecification == w.formatSpecification)
	r = verifAnd(r, a.formatSpecificationSet == w.formatSpecificationSet)
	return r
}
