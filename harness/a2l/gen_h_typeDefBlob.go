// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

// C07: two objects with all values symbolic and every enumeration keyword.
//
//verif:run C07 quick par=0 reach=parsed
//verif:run C07 quick par=2 reach=parsed
func VerifH_man_typeDefBlob() {
	b := verifNew()
	b.module()
	b.t("/begin TYPEDEF_BLOB")
	w1 := verifMk_typeDefBlob(b, 0)
	b.t("/begin TYPEDEF_BLOB")
	w2 := verifMk_typeDefBlob(b, -1)
	m := b.parseOne(verifParam("par"))
	n := verifCounts(m)
	verifAssert(n[15] == 2, "an object is missing or there is one too many")
	n[15] = 0
	verifAssert(n == verifZeroCounts, "an object of another kind appears")
	g1, ok1 := m.typeDefBlobs[w1.name]
	g2, ok2 := m.typeDefBlobs[w2.name]
	verifAssert(ok1 && ok2, "an object is not found under its name")
	verifAssert(verifEq_typeDefBlob(g1, w1), "a mandatory value differs from the file")
	verifAssert(verifEq_typeDefBlob(g2, w2), "a mandatory value of the second object differs from the file")
	verifReach("parsed")
}

// C08, and C07 for the mandatory values of the objects within an object: each option alone, all options, all options in reverse order; a plain object follows.
//
//verif:run C07,C08 quick par=0 reach=parsed
//verif:run C08 quick par=2 reach=parsed
func VerifH_opt_typeDefBlob() {
	b := verifNew()
	b.module()
	b.t("/begin TYPEDEF_BLOB")
	mode := 1 + verifChoose("mode", verifModes_typeDefBlob-1)
	w1 := verifMk_typeDefBlob(b, mode)
	b.t("/begin TYPEDEF_BLOB")
	w2 := verifMk_typeDefBlob(b, -1)
	m := b.parseOne(verifParam("par"))
	n := verifCounts(m)
	verifAssert(n[15] == 2, "an object is missing or there is one too many")
	n[15] = 0
	verifAssert(n == verifZeroCounts, "an object of another kind appears")
	g1, ok1 := m.typeDefBlobs[w1.name]
	g2, ok2 := m.typeDefBlobs[w2.name]
	verifAssert(ok1 && ok2, "an object is not found under its name")
	verifAssert(verifEq_typeDefBlob(g1, w1), "an optional value is missing, wrong or in another field")
	verifAssert(verifEq_typeDefBlob(g2, w2), "an option of one object changes the next one")
	verifReach("parsed")
}

// C07: any one number or text of an object with all its options is written in an unusual way.
//
//verif:run C07,C08 quick par=0 reach=parsed
func VerifH_form_typeDefBlob() {
	b := verifNew()
	b.still = true
	b.module()
	b.t("/begin TYPEDEF_BLOB")
	b.count = 0
	n := verifForms_typeDefBlob()
	if n == 0 {
		verifReach("parsed")
		return
	}
	b.other = 1 + verifChoose("which", n)
	b.variant = verifChoose("variant", len(verifTexts))
	w1 := verifMk_typeDefBlob(b, verifAllMode(verifModes_typeDefBlob))
	m := b.parseOne(verifParam("par"))
	g1, ok1 := m.typeDefBlobs[w1.name]
	verifAssert(ok1, "an object is not found under its name")
	verifAssert(verifEq_typeDefBlob(g1, w1), "a value written in another way differs from the file")
	verifReach("parsed")
}

// verifForms_typeDefBlob counts the numbers and texts.
func verifForms_typeDefBlob() int {
	b := verifNew()
	b.still = true
	verifMk_typeDefBlob(b, verifAllMode(verifModes_typeDefBlob))
	return b.count
}

// C07, C08: long lists, and options repeated often.
//
//verif:run C07,C08 quick par=0 reach=parsed
//verif:run C08 quick par=3 reach=parsed
func VerifH_long_typeDefBlob() {
	b := verifNew()
	b.module()
	b.t("/begin TYPEDEF_BLOB")
	switch verifChoose("long", 5) {
	case 4:
		b.long = -1
	case 0:
		b.long = 17
	case 1:
		b.long = 40
	case 2:
		b.long = 300
	case 3:
		b.many = 20
	}
	w1 := verifMk_typeDefBlob(b, verifAllMode(verifModes_typeDefBlob))
	b.t("/begin TYPEDEF_BLOB")
	w2 := verifMk_typeDefBlob(b, -1)
	m := b.parseOne(verifParam("par"))
	g1, ok1 := m.typeDefBlobs[w1.name]
	g2, ok2 := m.typeDefBlobs[w2.name]
	verifAssert(ok1 && ok2, "an object is not found under its name")
	verifAssert(verifEq_typeDefBlob(g1, w1), "a list differs from the file")
	verifAssert(verifEq_typeDefBlob(g2, w2), "a long list of one object changes the next one")
	verifReach("parsed")
}

// C10: one number or enumeration of an object with all its options is malformed.
//
//verif:run C10 quick par=0 reach=tried
//verif:run C10 quick par=2 reach=tried
func VerifH_bad_typeDefBlob() {
	b := verifNew()
	b.module()
	b.t("/begin TYPEDEF_BLOB")
	verifMk_typeDefBlob(b, verifAllMode(verifModes_typeDefBlob))
	if b.spoil() {
		b.rejected(verifParam("par"), "a malformed value is accepted")
	}
	verifReach("tried")
}

// C11: the text ends anywhere within an object with all its options.
//
//verif:run C11 quick par=0 reach=tried
//verif:run C11 quick par=1 reach=tried
func VerifH_cut_typeDefBlob() {
	b := verifNew()
	b.module()
	from := len(b.tok)
	b.t("/begin TYPEDEF_BLOB")
	verifMk_typeDefBlob(b, verifAllMode(verifModes_typeDefBlob))
	b.cut(from, len(b.tok), verifParam("par"))
	verifReach("tried")
}

// C22: any token in place of an enumeration keyword of an object with all its options.
//
//verif:run C22 quick par=0 reach=tried
//verif:run C22 quick par=2 reach=tried
func VerifH_enumpos_typeDefBlob() {
	b := verifNew()
	b.module()
	b.t("/begin TYPEDEF_BLOB")
	verifMk_typeDefBlob(b, verifAllMode(verifModes_typeDefBlob))
	if b.spoilEnum() {
		b.rejected(verifParam("par"), "a word that is no keyword of the enumeration is accepted")
	}
	verifReach("tried")
}

// C21: any token replaces or precedes any token of an object with all its options.
//
//verif:run C21 quick par=0 reach=tried
//verif:run C21 quick par=2 reach=tried
func VerifH_any1_typeDefBlob() {
	b := verifNew()
	b.module()
	from := len(b.tok)
	b.t("/begin TYPEDEF_BLOB")
	verifMk_typeDefBlob(b, verifAllMode(verifModes_typeDefBlob))
	b.any(from, len(b.tok), 1, verifParam("par"))
	verifReach("tried")
}

// C21: up to two any tokens at any place of an object without options, which may end there.
//
//verif:run C21 quick par=0 n=2 reach=tried
//verif:run C21 thorough par=2 n=2 reach=tried
//verif:run C21 thorough par=0 n=3 reach=tried
func VerifH_any2_typeDefBlob() {
	b := verifNew()
	b.module()
	from := len(b.tok)
	b.t("/begin TYPEDEF_BLOB")
	verifMk_typeDefBlob(b, -1)
	b.any(from, len(b.tok), verifParam("n"), verifParam("par"))
	verifReach("tried")
}
