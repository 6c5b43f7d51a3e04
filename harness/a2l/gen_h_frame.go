// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

// C07: two objects with all values symbolic and every enumeration keyword.
//
//verif:run C07 quick par=0 reach=parsed
//verif:run C07 quick par=2 reach=parsed
func VerifH_man_frame() {
	b := verifNew()
	b.module()
	b.t("/begin FRAME")
	w := verifMk_frame(b, 0)
	m := b.parseOne(verifParam("par"))
	verifAssert(verifCounts(m) == verifZeroCounts, "an object of another kind appears")
	verifAssert(verifEq_frame(m.frame, w), "a mandatory value differs from the file")
	verifReach("parsed")
}

// C08, and C07 for the mandatory values of the objects within an object: each option alone, all options, all options in reverse order; a plain object follows.
//
//verif:run C07,C08 quick par=0 reach=parsed
//verif:run C08 quick par=2 reach=parsed
func VerifH_opt_frame() {
	b := verifNew()
	b.module()
	b.t("/begin FRAME")
	mode := 1 + verifChoose("mode", verifModes_frame-1)
	w := verifMk_frame(b, mode)
	m := b.parseOne(verifParam("par"))
	verifAssert(verifCounts(m) == verifZeroCounts, "an object of another kind appears")
	verifAssert(verifEq_frame(m.frame, w), "an optional value is missing, wrong or in another field")
	verifReach("parsed")
}

// C08: every two options in either order; a plain object follows.
//
//verif:run C08 quick par=0 reach=parsed
//verif:run C08 thorough par=2 reach=parsed
func VerifH_pair_frame() {
	b := verifNew()
	b.module()
	b.t("/begin FRAME")
	mode := verifModes_frame + verifChoose("pair", verifPairs_frame)
	w := verifMk_frame(b, mode)
	m := b.parseOne(verifParam("par"))
	verifAssert(verifCounts(m) == verifZeroCounts, "an object of another kind appears")
	verifAssert(verifEq_frame(m.frame, w), "an optional value is missing, wrong or in another field")
	verifReach("parsed")
}

// C07: any one number or text of an object with all its options is written in an unusual way.
//
//verif:run C07,C08 quick par=0 reach=parsed
func VerifH_form_frame() {
	b := verifNew()
	b.still = true
	b.module()
	b.t("/begin FRAME")
	b.count = 0
	n := verifForms_frame()
	if n == 0 {
		verifReach("parsed")
		return
	}
	b.other = 1 + verifChoose("which", n)
	b.variant = verifChoose("variant", len(verifTexts))
	w1 := verifMk_frame(b, verifAllMode(verifModes_frame))
	m := b.parseOne(verifParam("par"))
	verifAssert(verifEq_frame(m.frame, w1), "a value written in another way differs from the file")
	verifReach("parsed")
}

// verifForms_frame counts the numbers and texts.
func verifForms_frame() int {
	b := verifNew()
	b.still = true
	verifMk_frame(b, verifAllMode(verifModes_frame))
	return b.count
}

// C07, C08: long lists, and options repeated often.
//
//verif:run C07,C08 quick par=0 reach=parsed
//verif:run C08 quick par=3 reach=parsed
func VerifH_long_frame() {
	b := verifNew()
	b.module()
	b.t("/begin FRAME")
	switch verifChoose("long", 5) {
	case 4:
		b.long = -1
	case 0:
		b.long = 17
	case 1:
		b.long = 40
	case 2:
		b.long = 300
	case 3:
		b.many = 20
	}
	w1 := verifMk_frame(b, verifAllMode(verifModes_frame))
	m := b.parseOne(verifParam("par"))
	verifAssert(verifEq_frame(m.frame, w1), "a list differs from the file")
	verifReach("parsed")
}

// C10: one number or enumeration of an object with all its options is malformed.
//
//verif:run C10 quick par=0 reach=tried
//verif:run C10 quick par=2 reach=tried
func VerifH_bad_frame() {
	b := verifNew()
	b.module()
	b.t("/begin FRAME")
	verifMk_frame(b, verifAllMode(verifModes_frame))
	if b.spoil() {
		b.rejected(verifParam("par"), "a malformed value is accepted")
	}
	verifReach("tried")
}

// C11: the text ends anywhere within an object with all its options.
//
//verif:run C11 quick par=0 reach=tried
//verif:run C11 quick par=1 reach=tried
func VerifH_cut_frame() {
	b := verifNew()
	b.module()
	from := len(b.tok)
	b.t("/begin FRAME")
	verifMk_frame(b, verifAllMode(verifModes_frame))
	b.cut(from, len(b.tok), verifParam("par"))
	verifReach("tried")
}

// C22: any token in place of an enumeration keyword of an object with all its options.
//
//verif:run C22 quick par=0 reach=tried
//verif:run C22 quick par=2 reach=tried
func VerifH_enumpos_frame() {
	b := verifNew()
	b.module()
	b.t("/begin FRAME")
	verifMk_frame(b, verifAllMode(verifModes_frame))
	if b.spoilEnum() {
		b.rejected(verifParam("par"), "a word that is no keyword of the enumeration is accepted")
	}
	verifReach("tried")
}

// C21: any token replaces or precedes any token of an object with all its options.
//
//verif:run C21 quick par=0 reach=tried
//verif:run C21 quick par=2 reach=tried
func VerifH_any1_frame() {
	b := verifNew()
	b.module()
	from := len(b.tok)
	b.t("/begin FRAME")
	verifMk_frame(b, verifAllMode(verifModes_frame))
	b.any(from, len(b.tok), 1, verifParam("par"))
	verifReach("tried")
}

// C21: up to two any tokens at any place of an object without options, which may end there.
//
//verif:run C21 quick par=0 n=2 reach=tried
//verif:run C21 thorough par=2 n=2 reach=tried
//verif:run C21 thorough par=0 n=3 reach=tried
func VerifH_any2_frame() {
	b := verifNew()
	b.module()
	from := len(b.tok)
	b.t("/begin FRAME")
	verifMk_frame(b, -1)
	b.any(from, len(b.tok), verifParam("n"), verifParam("par"))
	verifReach("tried")
}
