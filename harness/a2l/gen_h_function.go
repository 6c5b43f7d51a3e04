// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

// C07: two objects with all values symbolic and every enumeration keyword.
//
//verif:run C07 quick par=0 reach=parsed
//verif:run C07 quick par=2 reach=parsed
func VerifH_man_function() {
	b := verifNew()
	b.module()
	b.t("/begin FUNCTION")
	w1 := verifMk_function(b, 0)
	b.t("/begin FUNCTION")
	w2 := verifMk_function(b, -1)
	m := b.parseOne(verifParam("par"))
	n := verifCounts(m)
	verifAssert(n[7] == 2, "an object is missing or there is one too many")
	n[7] = 0
	verifAssert(n == verifZeroCounts, "an object of another kind appears")
	g1, ok1 := m.Functions[w1.name]
	g2, ok2 := m.Functions[w2.name]
	verifAssert(ok1 && ok2, "an object is not found under its name")
	verifAssert(verifEq_function(g1, w1), "a mandatory value differs from the file")
	verifAssert(verifEq_function(g2, w2), "a mandatory value of the second object differs from the file")
	verifReach("parsed")
}

// C08, and C07 for the mandatory values of the objects within an object: each option alone, all options, all options in reverse order; a plain object follows.
//
//verif:run C07,C08 quick par=0 reach=parsed
//verif:run C08 quick par=2 reach=parsed
func VerifH_opt_function() {
	b := verifNew()
	b.module()
	b.t("/begin FUNCTION")
	mode := 1 + verifChoose("mode", verifModes_function-1)
	w1 := verifMk_function(b, mode)
	b.t("/begin FUNCTION")
	w2 := verifMk_function(b, -1)
	m := b.parseOne(verifParam("par"))
	n := verifCounts(m)
	verifAssert(n[7] == 2, "an object is missing or there is one too many")
	n[7] = 0
	verifAssert(n == verifZeroCounts, "an object of another kind appears")
	g1, ok1 := m.Functions[w1.name]
	g2, ok2 := m.Functions[w2.name]
	verifAssert(ok1 && ok2, "an object is not found under its name")
	verifAssert(verifEq_function(g1, w1), "an optional value is missing, wrong or in another field")
	verifAssert(verifEq_function(g2, w2), "an option of one object changes the next one")
	verifReach("parsed")
}

// C08: every two options in either order; a plain object follows.
//
//verif:run C08 quick par=0 reach=parsed
//verif:run C08 thorough par=2 reach=parsed
func VerifH_pair_function() {
	b := verifNew()
	b.module()
	b.t("/begin FUNCTION")
	mode := verifModes_function + verifChoose("pair", verifPairs_function)
	w1 := verifMk_function(b, mode)
	b.t("/begin FUNCTION")
	w2 := verifMk_function(b, -1)
	m := b.parseOne(verifParam("par"))
	n := verifCounts(m)
	verifAssert(n[7] == 2, "an object is missing or there is one too many")
	n[7] = 0
	verifAssert(n == verifZeroCounts, "an object of another kind appears")
	g1, ok1 := m.Functions[w1.name]
	g2, ok2 := m.Functions[w2.name]
	verifAssert(ok1 && ok2, "an object is not found under its name")
	verifAssert(verifEq_function(g1, w1), "an optional value is missing, wrong or in another field")
	verifAssert(verifEq_function(g2, w2), "an option of one object changes the next one")
	verifReach("parsed")
}

// C07: any one number or text of an object with all its options is written in an unusual way.
//
//verif:run C07,C08 quick par=0 reach=parsed
func VerifH_form_function() {
	b := verifNew()
	b.still = true
	b.module()
	b.t("/begin FUNCTION")
	b.count = 0
	n := verifForms_function()
	if n == 0 {
		verifReach("parsed")
		return
	}
	b.other = 1 + verifChoose("which", n)
	b.variant = verifChoose("variant", len(verifTexts))
	w1 := verifMk_function(b, verifAllMode(verifModes_function))
	m := b.parseOne(verifParam("par"))
	g1, ok1 := m.Functions[w1.name]
	verifAssert(ok1, "an object is not found under its name")
	verifAssert(verifEq_function(g1, w1), "a value written in another way differs from the file")
	verifReach("parsed")
}

// verifForms_function counts the numbers and texts.
func verifForms_function() int {
	b := verifNew()
	b.still = true
	verifMk_function(b, verifAllMode(verifModes_function))
	return b.count
}

// C07, C08: long lists, and options repeated often.
//
//verif:run C07,C08 quick par=0 reach=parsed
//verif:run C08 quick par=3 reach=parsed
func VerifH_long_function() {
	b := verifNew()
	b.module()
	b.t("/begin FUNCTION")
	switch verifChoose("long", 5) {
	case 4:
		b.long = -1
	case 0:
		b.long = 17
	case 1:
		b.long = 40
	case 2:
		b.long = 300
	case 3:
		b.many = 20
	}
	w1 := verifMk_function(b, verifAllMode(verifModes_function))
	b.t("/begin FUNCTION")
	w2 := verifMk_function(b, -1)
	m := b.parseOne(verifParam("par"))
	g1, ok1 := m.Functions[w1.name]
	g2, ok2 := m.Functions[w2.name]
	verifAssert(ok1 && ok2, "an object is not found under its name")
	verifAssert(verifEq_function(g1, w1), "a list differs from the file")
	verifAssert(verifEq_function(g2, w2), "a long list of one object changes the next one")
	verifReach("parsed")
}

// C10: one number or enumeration of an object with all its options is malformed.
//
//verif:run C10 quick par=0 reach=tried
//verif:run C10 quick par=2 reach=tried
func VerifH_bad_function() {
	b := verifNew()
	b.module()
	b.t("/begin FUNCTION")
	verifMk_function(b, verifAllMode(verifModes_function))
	if b.spoil() {
		b.rejected(verifParam("par"), "a malformed value is accepted")
	}
	verifReach("tried")
}

// C11: the text ends anywhere within an object with all its options.
//
//verif:run C11 quick par=0 reach=tried
//verif:run C11 quick par=1 reach=tried
func VerifH_cut_function() {
	b := verifNew()
	b.module()
	from := len(b.tok)
	b.t("/begin FUNCTION")
	verifMk_function(b, verifAllMode(verifModes_function))
	b.cut(from, len(b.tok), verifParam("par"))
	verifReach("tried")
}

// C22: any token in place of an enumeration keyword of an object with all its options.
//
//verif:run C22 quick par=0 reach=tried
//verif:run C22 quick par=2 reach=tried
func VerifH_enumpos_function() {
	b := verifNew()
	b.module()
	b.t("/begin FUNCTION")
	verifMk_function(b, verifAllMode(verifModes_function))
	if b.spoilEnum() {
		b.rejected(verifParam("par"), "a word that is no keyword of the enumeration is accepted")
	}
	verifReach("tried")
}

// C21: any token replaces or precedes any token of an object with all its options.
//
//verif:run C21 quick par=0 reach=tried
//verif:run C21 quick par=2 reach=tried
func VerifH_any1_function() {
	b := verifNew()
	b.module()
	from := len(b.tok)
	b.t("/begin FUNCTION")
	verifMk_function(b, verifAllMode(verifModes_function))
	b.any(from, len(b.tok), 1, verifParam("par"))
	verifReach("tried")
}

// C21: up to two any tokens at any place of an object without options, which may end there.
//
//verif:run C21 quick par=0 n=2 reach=tried
//verif:run C21 thorough par=2 n=2 reach=tried
//verif:run C21 thorough par=0 n=3 reach=tried
func VerifH_any2_function() {
	b := verifNew()
	b.module()
	from := len(b.tok)
	b.t("/begin FUNCTION")
	verifMk_function(b, -1)
	b.any(from, len(b.tok), verifParam("n"), verifParam("par"))
	verifReach("tried")
}
