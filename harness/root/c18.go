package calibrationReader

import (
	"strconv"

	"github.com/asap2Go/calibrationReader/a2l"
)

func verifSameF(a, b float64) bool { return verifOr(a == b, verifAnd(a != a, b != b)) }

// C18: identical and linear conversion
//
//verif:run C18 quick cpu=1 reach=converted
func VerifH_convIdentical() {
	cd := verifCD()
	dec := verifF64("dec")
	cm := &a2l.CompuMethod{Name: "cm", ConversionType: a2l.Identical, ConversionTypeSet: true}
	cm.CoeffsLinear = a2l.CoeffsLinear{A: 3, ASet: true, B: 5, BSet: true}
	v, err := convDecToPhy(dec, cm, cd)
	verifReach("converted")
	verifAssert(err == nil, "identical conversion fails")
	verifAssert(verifSameF(v, dec), "identical conversion changes the value")
}

//verif:run C18 quick cpu=1 reach=converted,missing
func VerifH_convLinear() {
	cd := verifCD()
	dec := verifF64("dec")
	cm := &a2l.CompuMethod{Name: "cm", ConversionType: a2l.Linear, ConversionTypeSet: true}
	a, b := verifF64("a"), verifF64("b")
	as, bs := verifBool("aset"), verifBool("bset")
	cm.CoeffsLinear = a2l.CoeffsLinear{A: a, ASet: as, B: b, BSet: bs}
	v, err := convDecToPhy(dec, cm, cd)
	if !as || !bs {
		verifReach("missing")
		verifAssert(err != nil, "linear conversion without coefficients gives a number")
		return
	}
	verifReach("converted")
	verifAssert(err == nil, "linear conversion fails")
	verifAssert(verifSameF(v, a*dec+b), "linear conversion gives another number")
}

// C18: missing coefficients and conversion types that give no number
//
//verif:run C18 quick cpu=1 reach=converted
func VerifH_convUnsupported() {
	cd := verifCD()
	dec := verifF64("dec")
	cm := &a2l.CompuMethod{Name: "cm", ConversionTypeSet: true}
	cm.CompuTabRef = a2l.CompuTabRef{ConversionTable: "t", ConversionTableSet: true}
	cd.A2l.Project.Modules[0].CompuTabs = map[string]a2l.CompuTab{"t": {Name: "t", NameSet: true,
		InVal: []float64{1}, InValSet: true, OutVal: []float64{2}, OutValSet: true,
		DefaultValueNumeric: a2l.DefaultValueNumeric{DisplayValue: 7, DisplayValueSet: true}}}
	switch verifChoose("type", 5) {
	case 0:
		cm.ConversionType = a2l.Form
	case 1:
		cm.ConversionType = a2l.TabIntp
		// interpolation is not supported: no table entry matches and no number must come out
		verifAssume(dec > 1)
		verifAssume(dec < 2)
		t := cd.A2l.Project.Modules[0].CompuTabs["t"]
		t.InVal, t.OutVal = []float64{1, 2}, []float64{10, 20}
		t.DefaultValueNumeric = a2l.DefaultValueNumeric{}
		cd.A2l.Project.Modules[0].CompuTabs["t"] = t
	case 2:
		cm.ConversionType = a2l.TabVerb
	case 3:
		// not set
	case 4:
		cm.ConversionType = a2l.RatFunc
		m := verifChoose("missing", 6)
		cm.Coeffs = a2l.Coeffs{A: 0, B: 1, C: 0, D: 0, E: 0, F: 1,
			ASet: m != 0, BSet: m != 1, CSet: m != 2, DSet: m != 3, ESet: m != 4, FSet: m != 5}
	}
	v, err := convDecToPhy(dec, cm, cd)
	verifReach("converted")
	if cm.ConversionType == a2l.TabIntp {
		// an implementation may interpolate, but not return something else
		verifAssert(err != nil || (v >= 10 && v <= 20), "interpolated conversion gives another number")
		return
	}
	verifAssert(err != nil, "a conversion that is not possible gives a number")
}

// C18: numeric table
//
//verif:run C18 quick cpu=1 n=3 reach=hit,default,none,absent
//verif:run C18 quick cpu=1 n=6 reach=hit,default,none,absent
func VerifH_convTab() {
	cd := verifCD()
	n := 1 + verifChoose("entries", verifParam("n"))
	dec := verifF64("dec")
	verifAssume(dec == dec)
	tab := a2l.CompuTab{Name: "t", NameSet: true, NumberValuePairs: uint16(n), NumberValuePairsSet: true, InValSet: true, OutValSet: true}
	hit := -1
	for i := 0; i < n; i++ {
		a, b := verifF64("in"), verifF64("out")
		tab.InVal = append(tab.InVal, a)
		tab.OutVal = append(tab.OutVal, b)
		if hit < 0 && a == dec {
			hit = i
		}
	}
	def := verifBool("default")
	d := verifF64("defval")
	if def {
		tab.DefaultValueNumeric = a2l.DefaultValueNumeric{DisplayValue: d, DisplayValueSet: true}
	}
	other := tab
	other.OutVal = make([]float64, n)
	other.Name = "u"
	there := verifBool("there")
	m := map[string]a2l.CompuTab{"u": other}
	if there {
		m["t"] = tab
	}
	cd.A2l.Project.Modules[0].CompuTabs = m
	cm := &a2l.CompuMethod{Name: "cm", ConversionType: a2l.TabNointp, ConversionTypeSet: true}
	cm.CompuTabRef = a2l.CompuTabRef{ConversionTable: "t", ConversionTableSet: true}
	v, err := convDecToPhy(dec, cm, cd)
	switch {
	case !there:
		verifReach("absent")
		verifAssert(err != nil, "a missing table gives a number")
	case hit >= 0:
		verifReach("hit")
		verifAssert(err == nil, "a table entry is not found")
		verifAssert(verifSameF(v, tab.OutVal[hit]), "another table entry is returned")
	case def:
		verifReach("default")
		verifAssert(err == nil, "the default value is not used")
		verifAssert(verifSameF(v, d), "another value than the default is returned")
	default:
		verifReach("none")
		verifAssert(err != nil, "a value that is not in the table gives a number")
	}
}

// verifTexts gives any texts of up to two characters, and one to be the default.
func verifTexts(n int) ([]string, string) {
	var l []string
	s := verifChoose("lengths", verifParam("lengths"))
	for i := 0; i < n; i++ {
		l = append(l, verifBytes("text", (i+2*s)%3))
	}
	return l, verifBytes("dflt", s)
}

// C18: verbal table
//
//verif:run C18 quick cpu=1 n=3 lengths=3 reach=hit,default,none,absent
//verif:run C18 quick cpu=1 n=6 lengths=1 reach=hit,default,none,absent
func VerifH_convVerb() {
	cd := verifCD()
	n := 1 + verifChoose("entries", verifParam("n"))
	dec := verifF64("dec")
	verifAssume(dec == dec)
	tab := a2l.CompuVTab{Name: "t", NameSet: true, NumberValuePairs: uint16(n), NumberValuePairsSet: true, InValSet: true, OutValSet: true}
	texts, dflt := verifTexts(n)
	hit := -1
	for i := 0; i < n; i++ {
		a := verifF64("in")
		tab.InVal = append(tab.InVal, a)
		tab.OutVal = append(tab.OutVal, texts[i])
		if hit < 0 && a == dec {
			hit = i
		}
	}
	def := verifBool("default")
	if def {
		tab.DefaultValue = a2l.DefaultValue{DisplayString: dflt, DisplayStringSet: true}
	}
	there := verifBool("there")
	m := map[string]a2l.CompuVTab{"u": {Name: "u", InValSet: true, OutValSet: true, InVal: []float64{1}, OutVal: []string{"x"}}}
	if there {
		m["t"] = tab
	}
	cd.A2l.Project.Modules[0].CompuVTabs = m
	v, err := calcTabVerb(dec, &a2l.CompuVTab{Name: "t"}, cd)
	switch {
	case !there:
		verifReach("absent")
		verifAssert(err != nil, "a missing table gives a text")
	case hit >= 0:
		verifReach("hit")
		verifAssert(err == nil, "a table entry is not found")
		verifAssert(v == texts[hit], "another table entry is returned")
	case def:
		verifReach("default")
		verifAssert(err == nil, "the default value is not used")
		verifAssert(v == dflt, "another value than the default is returned")
	default:
		verifReach("none")
		verifAssert(err != nil, "a value that is not in the table gives a text")
	}
}

// C18: verbal ranges
//
//verif:run C18 quick cpu=1 n=3 lengths=3 reach=hit,default,none,absent,upper
//verif:run C18 quick cpu=1 n=5 lengths=1 reach=hit,default,none,absent,upper
func VerifH_convVerbRange() {
	cd := verifCD()
	n := 1 + verifChoose("entries", verifParam("n"))
	dec := verifF64("dec")
	verifAssume(dec == dec)
	tab := a2l.CompuVTabRange{Name: "t", NameSet: true, NumberValueTriples: uint16(n), NumberValueTriplesSet: true, InValMinSet: true, InValMaxSet: true, OutValSet: true}
	texts, dflt := verifTexts(n)
	// first range that holds the value without and with its upper limit
	hit, upper := -1, -1
	for i := 0; i < n; i++ {
		a, b := verifF64("min"), verifF64("max")
		verifAssume(a <= b)
		tab.InValMin = append(tab.InValMin, a)
		tab.InValMax = append(tab.InValMax, b)
		tab.OutVal = append(tab.OutVal, texts[i])
		if hit < 0 && verifAnd(a <= dec, dec < b) {
			hit = i
		}
		if upper < 0 && verifAnd(a <= dec, dec <= b) {
			upper = i
		}
	}
	def := verifBool("default")
	if def {
		tab.DefaultValue = a2l.DefaultValue{DisplayString: dflt, DisplayStringSet: true}
	}
	there := verifBool("there")
	m := map[string]a2l.CompuVTabRange{}
	if there {
		m["t"] = tab
	}
	cd.A2l.Project.Modules[0].CompuVTabRanges = m
	v, err := calcTabVerbRange(dec, &a2l.CompuVTabRange{Name: "t"}, cd)
	switch {
	case !there:
		verifReach("absent")
		verifAssert(err != nil, "a missing table gives a text")
	case hit >= 0 && hit == upper:
		verifReach("hit")
		verifAssert(err == nil, "a range is not found")
		verifAssert(v == texts[hit], "another range is returned")
	case hit >= 0:
		// the value is the upper limit of an earlier range and inside a later one: either may be meant
		verifAssert(err == nil, "a range is not found")
		verifAssert(v == texts[hit] || v == texts[upper], "another range is returned")
	case upper >= 0:
		verifReach("upper")
		verifAssert(err == nil, "the upper limit of a range is not found")
		verifAssert(v == texts[upper], "another range is returned")
	case def:
		verifReach("default")
		verifAssert(err == nil, "the default value is not used")
		verifAssert(v == dflt, "another value than the default is returned")
	default:
		verifReach("none")
		verifAssert(err != nil, "a value outside of all ranges gives a text")
	}
}

// C18: long tables; the value is one of the inputs or none of them.
//
//verif:run C18 quick cpu=1 n=40 step=1 reach=hit,default
//verif:run C18 quick cpu=1 n=300 step=-1 reach=hit,default
//verif:run C18 thorough cpu=1 n=1100 step=-1 reach=hit,default
func VerifH_convLong() {
	cd := verifCD()
	n := verifParam("n")
	kind := verifChoose("kind", 3)
	k := verifInt("k")
	verifAssume(verifAnd(k >= 0, k <= n))
	tab := a2l.CompuTab{Name: "t", NameSet: true, NumberValuePairs: uint16(n), NumberValuePairsSet: true, InValSet: true, OutValSet: true,
		DefaultValueNumeric: a2l.DefaultValueNumeric{DisplayValue: -1, DisplayValueSet: true}}
	vtab := a2l.CompuVTab{Name: "t", NameSet: true, NumberValuePairs: uint16(n), NumberValuePairsSet: true, InValSet: true, OutValSet: true,
		DefaultValue: a2l.DefaultValue{DisplayString: "none", DisplayStringSet: true}}
	rtab := a2l.CompuVTabRange{Name: "t", NameSet: true, NumberValueTriples: uint16(n), NumberValueTriplesSet: true, InValMinSet: true, InValMaxSet: true, OutValSet: true,
		DefaultValue: a2l.DefaultValue{DisplayString: "none", DisplayStringSet: true}}
	for i := 0; i < n; i++ {
		in := float64(verifParam("step") * 4 * i)
		tab.InVal, tab.OutVal = append(tab.InVal, in), append(tab.OutVal, float64(1000+i))
		vtab.InVal, vtab.OutVal = append(vtab.InVal, in), append(vtab.OutVal, "v"+strconv.Itoa(i))
		rtab.InValMin, rtab.InValMax, rtab.OutVal = append(rtab.InValMin, in-1), append(rtab.InValMax, in+2), append(rtab.OutVal, "v"+strconv.Itoa(i))
	}
	m := &cd.A2l.Project.Modules[0]
	m.CompuTabs = map[string]a2l.CompuTab{"t": tab}
	m.CompuVTabs = map[string]a2l.CompuVTab{"t": vtab}
	m.CompuVTabRanges = map[string]a2l.CompuVTabRange{"t": rtab}
	dec := float64(verifParam("step") * 4 * k)
	var num float64
	var text string
	var err error
	switch kind {
	case 0:
		cm := &a2l.CompuMethod{Name: "cm", ConversionType: a2l.TabNointp, ConversionTypeSet: true}
		cm.CompuTabRef = a2l.CompuTabRef{ConversionTable: "t", ConversionTableSet: true}
		num, err = convDecToPhy(dec, cm, cd)
	case 1:
		text, err = calcTabVerb(dec, &a2l.CompuVTab{Name: "t"}, cd)
	default:
		text, err = calcTabVerbRange(dec, &a2l.CompuVTabRange{Name: "t"}, cd)
	}
	verifAssert(err == nil, "an entry of a long table is not found")
	if k == n {
		verifReach("default")
		verifAssert(verifOr(kind == 0 && num == -1, kind != 0 && text == "none"), "another value than the default is returned")
		return
	}
	verifReach("hit")
	if kind == 0 {
		verifAssert(num == float64(1000+k), "another entry of a long table is returned")
		return
	}
	found := -1
	for i, o := range vtab.OutVal {
		if text == o {
			found = i
		}
	}
	verifAssert(found == k, "another entry of a long table is returned")
}

// C18: the rational function is inverted: raw values of a rational function without square
// terms, with small integers for which the physical value is an integer.
//
//verif:run C18 quick cpu=1 m=3 reach=converted
//verif:run C18 thorough cpu=1 m=15 reach=converted
func VerifH_convRatLinear() {
	cd := verifCD()
	m := verifParam("m")
	b := []int{1, -2, 4, 8}[verifChoose("b", 4)]
	e := []int{0, 1, -3}[verifChoose("e", 3)]
	dec := []int{0, 1, -2, 3}[verifChoose("dec", 4)]
	x, f := verifSmall("x", m), verifSmall("f", m)
	k := b - e*dec
	verifAssume(k == 1 || k == 2 || k == 4 || k == -2 || k == 8)
	// b x + c = dec (e x + f)
	c := dec*(e*x+f) - b*x
	cm := &a2l.CompuMethod{Name: "cm", ConversionType: a2l.RatFunc, ConversionTypeSet: true}
	cm.Coeffs = a2l.Coeffs{A: 0, B: float64(b), C: float64(c), D: 0, E: float64(e), F: float64(f),
		ASet: true, BSet: true, CSet: true, DSet: true, ESet: true, FSet: true}
	verifAssume(e*x+f != 0)
	v, err := convDecToPhy(float64(dec), cm, cd)
	verifReach("converted")
	verifAssert(err == nil, "a rational function that can be inverted fails")
	d := v - float64(x)
	verifAssert(d < 1e-6 && d > -1e-6, "the rational function is inverted to another number")
}

// C18: a rational function with square terms, given by its roots: a (x-r1) (x-r2) = 0 at dec = 0.
//
//verif:run C18 quick cpu=1 reach=converted
func VerifH_convRatQuad() {
	cd := verifCD()
	a := []float64{1, -2, 0.5}[verifChoose("a", 3)]
	roots := []float64{-4, -1, 0, 2, 3}
	r1, r2 := roots[verifChoose("r1", 5)], roots[verifChoose("r2", 5)]
	dec := []float64{0, 1, -3}[verifChoose("dec", 3)]
	d, e, f := 0.0, 1.0, 10.0
	cm := &a2l.CompuMethod{Name: "cm", ConversionType: a2l.RatFunc, ConversionTypeSet: true}
	// a x^2 + b x + c - dec (d x^2 + e x + f) = a (x - r1) (x - r2)
	cm.Coeffs = a2l.Coeffs{A: a + dec*d, B: -a*(r1+r2) + dec*e, C: a*r1*r2 + dec*f, D: d, E: e, F: f,
		ASet: true, BSet: true, CSet: true, DSet: true, ESet: true, FSet: true}
	v, err := convDecToPhy(dec, cm, cd)
	verifReach("converted")
	verifAssert(err == nil, "a rational function that can be inverted fails")
	d1, d2 := v-r1, v-r2
	verifAssert(d1 < 1e-6 && d1 > -1e-6 || d2 < 1e-6 && d2 > -1e-6, "the rational function is inverted to another number")
}

// C18: a solution of the inverted equation at which the function is not defined is no physical value:
// (a (x-r) (x-s) + dec k (x-r)) / (k (x-r)) has the value dec at x = s only.
//
//verif:run C18 quick cpu=1 reach=converted
func VerifH_convRatPole() {
	cd := verifCD()
	a := []float64{1, -2, 0.5}[verifChoose("a", 3)]
	k := []float64{1, -4}[verifChoose("k", 2)]
	roots := []float64{-4, -1, 0, 2, 3}
	ri, si := verifChoose("r", 5), verifChoose("s", 5)
	verifAssume(ri != si)
	r, s := roots[ri], roots[si]
	dec := []float64{0, 1, -3}[verifChoose("dec", 3)]
	cm := &a2l.CompuMethod{Name: "cm", ConversionType: a2l.RatFunc, ConversionTypeSet: true}
	cm.Coeffs = a2l.Coeffs{A: a, B: -a*(r+s) + dec*k, C: a*r*s - dec*k*r, D: 0, E: k, F: -k * r,
		ASet: true, BSet: true, CSet: true, DSet: true, ESet: true, FSet: true}
	v, err := convDecToPhy(dec, cm, cd)
	verifReach("converted")
	verifAssert(err == nil, "a rational function that can be inverted fails")
	d := v - s
	verifAssert(d < 1e-6 && d > -1e-6, "a number is returned at which the rational function does not have the value")
}

func verifSmall(name string, m int) int {
	v := verifInt(name)
	verifAssume(v >= -m)
	verifAssume(v <= m)
	return v
}
