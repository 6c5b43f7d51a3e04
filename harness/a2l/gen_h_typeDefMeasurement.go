// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

// C07: two objects with all values symbolic and every enumeration keyword.
//
//verif:run C07 quick par=0 reach=parsed
//verif:run C07 quick par=2 reach=parsed
func VerifH_man_typeDefMeasurement() {
	b := verifNew()
	b.module()
	b.t("/begin TYPEDEF_MEASUREMENT")
	w1 := verifMk_typeDefMeasurement(b, 0)
	b.t("/begin TYPEDEF_MEASUREMENT")
	w2 := verifMk_typeDefMeasurement(b, -1)
	m := b.parseOne(verifParam("par"))
	n := verifCounts(m)
	verifAssert(n[17] == 2, "an object is missing or there is one too many")
	n[17] = 0
	verifAssert(n == verifZeroCounts, "an object of another kind appears")
	g1, ok1 := m.typeDefMeasurements[w1.name]
	g2, ok2 := m.typeDefMeasurements[w2.name]
	verifAssert(ok1 && ok2, "an object is not found under its name")
	verifAssert(verifEq_typeDefMeasurement(g1, w1), "a mandatory value differs from the file")
	verifAssert(verifEq_typeDefMeasurement(g2, w2), "a mandatory value of the second object differs from the file")
	verifReach("parsed")
}

// C08, and C07 for the mandatory values of the objects within an object: each option alone, all options, all options in reverse order; a plain object follows.
//
//verif:run C07,C08 quick par=0 reach=parsed
//verif:run C08 quick par=2 reach=parsed
func VerifH_opt_typeDefMeasurement() {
	b := verifNew()
	b.module()
	b.t("/begin TYPEDEF_MEASUREMENT")
	mode := 1 + verifChoose("mode", verifModes_typeDefMeasurement-1)
	w1 := verifMk_typeDefMeasurement(b, mode)
	b.t("/begin TYPEDEF_MEASUREMENT")
	w2 := verifMk_typeDefMeasurement(b, -1)
	m := b.parseOne(verifParam("par"))
	n := verifCounts(m)
	verifAssert(n[17] == 2, "an object is missing or there is one too many")
	n[17] = 0
	verifAssert(n == verifZeroCounts, "an object of another kind appears")
	g1, ok1 := m.typeDefMeasurements[w1.name]
	g2, ok2 := m.typeDefMeasurements[w2.name]
	verifAssert(ok1 && ok2, "an object is not found under its name")
	verifAssert(verifEq_typeDefMeasurement(g1, w1), "an optional value is missing, wrong or in another field")
	verifAssert(verifEq_typeDefMeasurement(g2, w2), "an option of one object changes the next one")
	verifReach("parsed")
}

// C08: every two options in either order; a plain object follows.
//
//verif:run C08 quick par=0 reach=parsed
//verif:run C08 thorough par=2 reach=parsed
func VerifH_pair_typeDefMeasurement() {
	b := verifNew()
	b.module()
	b.t("/begin TYPEDEF_MEASUREMENT")
	mode := verifModes_typeDefMeasurement + verifChoose("pair", verifPairs_typeDefMeasurement)
	w1 := verifMk_typeDefMeasurement(b, mode)
	b.t("/begin TYPEDEF_MEASUREMENT")
	w2 := verifMk_typeDefMeasurement(b, -1)
	m := b.parseOne(verifParam("par"))
	n := verifCounts(m)
	verifAssert(n[17] == 2, "an object is missing or there is one too many")
	n[17] = 0
	verifAssert(n == verifZeroCounts, "an object of another kind appears")
	g1, ok1 := m.typeDefMeasurements[w1.name]
	g2, ok2 := m.typeDefMeasurements[w2.name]
	verifAssert(ok1 && ok2, "an object is not found under its name")
	verifAssert(verifEq_typeDefMeasurement(g1, w1), "an optional value is missing, wrong or in another field")
	verifAssert(verifEq_typeDefMeasurement(g2, w2), "an option of one object changes the next one")
	verifReach("parsed")
}

// C07: any one number or text of an object with all its options is written in an unusual way.
//
//verif:run C07,C08 quick par=0 reach=parsed
func VerifH_form_typeDefMeasurement() {
	b := verifNew()
	b.still = true
	b.module()
	b.t("/begin TYPEDEF_MEASUREMENT")
	b.count = 0
	n := verifForms_typeDefMeasurement()
	if n == 0 {
		verifReach("parsed")
		return
	}
	b.other = 1 + verifChoose("which", n)
	b.variant = verifChoose("variant", len(verifTexts))
	w1 := verifMk_typeDefMeasurement(b, verifAllMode(verifModes_typeDefMeasurement))
	m := b.parseOne(verifParam("par"))
	g1, ok1 := m.typeDefMeasurements[w1.name]
	verifAssert(ok1, "an object is not found under its name")
	verifAssert(verifEq_typeDefMeasurement(g1, w1), "a value written in another way differs from the file")
	verifReach("parsed")
}

// verifForms_typeDefMeasurement counts the numbers and texts.
func verifForms_typeDefMeasurement() int {
	b := verifNew()
	b.still = true
	verifMk_typeDefMeasurement(b, verifAllMode(verifModes_typeDefMeasurement))
	return b.count
}

// C07, C08: long lists, and options repeated often.
//
//verif:run C07,C08 quick par=0 reach=parsed
//verif:run C08 quick par=3 reach=parsed
func VerifH_long_typeDefMeasurement() {
	b := verifNew()
	b.module()
	b.t("/begin TYPEDEF_MEASUREMENT")
	switch verifChoose("long", 5) {
	case 4:
		b.long = -1
	case 0:
		b.long = 17
	case 1:
		b.long = 40
	case 2:
		b.long = 300
	case 3:
		b.many = 20
	}
	w1 := verifMk_typeDefMeasurement(b, verifAllMode(verifModes_typeDefMeasurement))
	b.t("/begin TYPEDEF_MEASUREMENT")
	w2 := verifMk_typeDefMeasurement(b, -1)
	m := b.parseOne(verifParam("par"))
	g1, ok1 := m.typeDefMeasurements[w1.name]
	g2, ok2 := m.typeDefMeasurements[w2.name]
	verifAssert(ok1 && ok2, "an object is not found under its name")
	verifAssert(verifEq_typeDefMeasurement(g1, w1), "a list differs from the file")
	verifAssert(verifEq_typeDefMeasurement(g2, w2), "a long list of one object changes the next one")
	verifReach("parsed")
}

// C10: one number or enumeration of an object with all its options is malformed.
//
//verif:run C10 quick par=0 reach=tried
//verif:run C10 quick par=2 reach=tried
func VerifH_bad_typeDefMeasurement() {
	b := verifNew()
	b.module()
	b.t("/begin TYPEDEF_MEASUREMENT")
	verifMk_typeDefMeasurement(b, verifAllMode(verifModes_typeDefMeasurement))
	if b.spoil() {
		b.rejected(verifParam("par"), "a malformed value is accepted")
	}
	verifReach("tried")
}

// C11: the text ends anywhere within an object with all its options.
//
//verif:run C11 quick par=0 reach=tried
//verif:run C11 quick par=1 reach=tried
func VerifH_cut_typeDefMeasurement() {
	b := verifNew()
	b.module()
	from := len(b.tok)
	b.t("/begin TYPEDEF_MEASUREMENT")
	verifMk_typeDefMeasurement(b, verifAllMode(verifModes_typeDefMeasurement))
	b.cut(from, len(b.tok), verifParam("par"))
	verifReach("tried")
}

// C22: any token in place of an enumeration keyword of an object with all its options.
//
//verif:run C22 quick par=0 reach=tried
//verif:run C22 quick par=2 reach=tried
func VerifH_enumpos_typeDefMeasurement() {
	b := verifNew()
	b.module()
	b.t("/begin TYPEDEF_MEASUREMENT")
	verifMk_typeDefMeasurement(b, verifAllMode(verifModes_typeDefMeasurement))
	if b.spoilEnum() {
		b.rejected(verifParam("par"), "a word that is no keyword of the enumeration is accepted")
	}
	verifReach("tried")
}

// C21: any token replaces or precedes any token of an object with all its options.
//
//verif:run C21 quick par=0 reach=tried
//verif:run C21 quick par=2 reach=tried
func VerifH_any1_typeDefMeasurement() {
	b := verifNew()
	b.module()
	from := len(b.tok)
	b.t("/begin TYPEDEF_MEASUREMENT")
	verifMk_typeDefMeasurement(b, verifAllMode(verifModes_typeDefMeasurement))
	b.any(from, len(b.tok), 1, verifParam("par"))
	verifReach("tried")
}

// C21: up to two any tokens at any place of an object without options, which may end there.
//
//verif:run C21 quick par=0 n=2 reach=tried
//verif:run C21 thorough par=2 n=2 reach=tried
//verif:run C21 thorough par=0 n=3 reach=tried
func VerifH_any2_typeDefMeasurement() {
	b := verifNew()
	b.module()
	from := len(b.tok)
	b.t("/begin TYPEDEF_MEASUREMENT")
	verifMk_typeDefMeasurement(b, -1)
	b.any(from, len(b.tok), verifParam("n"), verifParam("par"))
	verifReach("tried")
}
