package a2l

// refs appends a group with n references: a filler of any size.
func (x *verifAll) refs(b *verifB, n int) {
	var g group
	b.t("/begin GROUP")
	g.groupName, g.groupNameSet = b.s("groupName"), true
	g.groupLongIdentifier, g.groupLongIdentifierSet = b.s("groupText"), true
	b.t("/begin REF_CHARACTERISTIC")
	for i := 0; i < n; i++ {
		g.refCharacteristic.identifier = append(g.refCharacteristic.identifier, b.s("ref"))
		g.refCharacteristic.identifierSet = true
	}
	b.t("/end REF_CHARACTERISTIC")
	b.t("/end GROUP")
	x.Groups = append(x.Groups, g)
}

// C09: objects of every kind around a filler that moves the boundaries of the workers' parts over
// every token of the objects.
//
//verif:run C09 quick par=1 len=3 reach=parsed
//verif:run C09 quick par=2 len=30 reach=parsed
//verif:run C09 quick par=3 len=24 reach=parsed
//verif:run C09 quick par=4 len=24 reach=parsed
//verif:run C09 quick par=5 len=24 reach=parsed
//verif:run C09 thorough par=2 len=80 reach=parsed
//verif:run C09 thorough par=3 len=80 reach=parsed
//verif:run C09 thorough par=6 len=60 reach=parsed
//verif:run C09 thorough par=7 len=60 reach=parsed
//verif:run C09 thorough par=8 len=60 reach=parsed
func VerifH_bounds() {
	b := verifNew()
	b.module()
	var x verifAll
	kind := verifChoose("kind", verifKinds)
	x.add(b, kind, -1)
	x.refs(b, 1+verifChoose("len", verifParam("len")))
	if !verifSingle(kind) {
		x.add(b, kind, -1)
	}
	x.add(b, 23, -1)
	x.same(b.parseOne(verifParam("par")))
	verifReach("parsed")
}

// C09: one object of every kind, each with one of its options, in any rotation.
//
//verif:run C09 quick par=2 reach=parsed
//verif:run C09 quick par=3 reach=parsed
//verif:run C09 quick par=5 reach=parsed
//verif:run C09 quick par=16 reach=parsed
//verif:run C09 quick par=64 reach=parsed
//verif:run C09 quick par=4 race=1 reach=parsed
func VerifH_everykind() {
	b := verifNew()
	b.still = true
	b.module()
	var x verifAll
	r := verifChoose("rotation", verifKinds)
	for i := 0; i < verifKinds; i++ {
		m := -1
		if i%3 == 1 {
			m = 1
		}
		x.add(b, (r+i)%verifKinds, m)
	}
	x.same(b.parseOne(verifParam("par")))
	verifReach("parsed")
}

// C09: more objects of one kind than its channel holds, in files shorter than the number of workers
// and longer.
//
//verif:run C09 quick par=2 n=24 reach=parsed
//verif:run C09 quick par=16 n=2 reach=parsed
//verif:run C09 quick par=4 n=0 reach=parsed
//verif:run C09 quick par=3 n=120 reach=parsed
//verif:run C09 quick par=2 n=300 reach=parsed
//verif:run C09 thorough par=5 n=1100 timeout=1500 reach=parsed
//verif:run C09 quick par=2 n=4 race=1 reach=parsed
//verif:run C09 thorough par=2 n=2 race=1 delays=1 timeout=2000 reach=parsed
func VerifH_many() {
	b := verifNew()
	b.module()
	var x verifAll
	kind := verifChoose("kind", verifKinds)
	if verifSingle(kind) {
		return
	}
	for i := 0; i < verifParam("n"); i++ {
		x.add(b, kind, -1)
	}
	x.same(b.parseOne(verifParam("par")))
	verifReach("parsed")
}

// C07, C09: objects of one kind whose names differ in little, and objects of all kinds with one name.
//
//verif:run C07,C09 quick par=1 reach=parsed
//verif:run C07,C09 quick par=2 reach=parsed
//verif:run C09 quick par=7 reach=parsed
func VerifH_names() {
	b := verifNew()
	b.still = true
	b.module()
	var x verifAll
	long := "n123456789"
	for i := 0; i < 5; i++ {
		long += long
	}
	names := []string{"abc", "Abc", "aBc", "ABC", "abcd", "ab", "a.b", "a_b", "ab[1]", "ab[2]", "ab[10]", "0", "00", "1", "01", "1.0",
		"_", "__", long, long + "1", long + "2", "1" + long, "2" + long, "\u00e4", "\u00c4"}
	kind := verifChoose("kind", verifKinds+1)
	if kind == verifKinds {
		for k := 0; k < verifKinds; k++ {
			b.name = "abc"
			x.add(b, k, -1)
		}
		b.name = ""
	} else if verifSingle(kind) {
		return
	} else {
		for _, n := range names {
			b.name = n
			x.add(b, kind, -1)
			b.name = ""
		}
	}
	x.same(b.parseOne(verifParam("par")))
	verifReach("parsed")
}

// C09: the schedules of the workers and collectors.
//
//verif:run C09 quick par=2 delays=1 race=1 reach=parsed
//verif:run C09 quick par=2 delays=2 race=1 reach=parsed
//verif:run C09 quick par=3 delays=1 race=1 reach=parsed
//verif:run C09 thorough par=3 delays=2 race=1 timeout=3000 reach=parsed
//verif:run C09 thorough par=2 delays=3 race=1 timeout=3000 reach=parsed
func VerifH_schedule() {
	b := verifNew()
	b.module()
	var x verifAll
	x.add(b, 23, -1)
	x.add(b, 23, -1)
	x.add(b, 15, -1)
	x.add(b, 11, -1)
	x.same(b.parseOne(verifParam("par")))
	verifReach("parsed")
}

// C10, C11: the error of one worker is reported under every schedule.
//
//verif:run C10,C11 quick par=2 delays=1 race=1 reach=tried
//verif:run C10,C11 quick par=3 delays=1 race=1 reach=tried
//verif:run C10,C11 thorough par=2 delays=2 race=1 timeout=3000 reach=tried
func VerifH_badschedule() {
	b := verifNew()
	b.module()
	var x verifAll
	kind := []int{23, 11, 12}[verifChoose("kind", 3)]
	first := verifBool("first")
	if first {
		x.add(b, 15, -1)
	}
	b.pos = nil
	x.add(b, kind, -1)
	if len(b.pos) > 0 {
		b.tok[b.pos[len(b.pos)-1].at] = "bad"
	} else {
		b.tok[len(b.tok)-1] = "/end MODULE"
		first = true
	}
	if !first {
		x.add(b, 15, -1)
	}
	b.rejected(verifParam("par"), "the error of a worker is lost")
	verifReach("tried")
}

// verifKindsOnce writes one object of every kind, some with an option.
func verifKindsOnce(b *verifB, rotation int) {
	b.still = true
	b.module()
	var x verifAll
	for i := 0; i < verifKinds; i++ {
		m := -1
		if i%3 == 1 {
			m = 1
		}
		x.add(b, (rotation+i)%verifKinds, m)
	}
}

// C10: a malformed value in any one of many objects, read by several workers.
//
//verif:run C10 quick par=2 rot=0 reach=tried
//verif:run C10 quick par=3 rot=9 reach=tried
//verif:run C10 quick par=8 rot=18 reach=tried
func VerifH_badkinds() {
	b := verifNew()
	verifKindsOnce(b, verifParam("rot"))
	b.spoil()
	b.rejected(verifParam("par"), "a malformed value is accepted")
	verifReach("tried")
}

// C11: a file of many objects ends anywhere, read by several workers.
//
//verif:run C11 quick par=2 rot=0 reach=tried
//verif:run C11 quick par=3 rot=9 reach=tried
//verif:run C11 quick par=8 rot=18 reach=tried
func VerifH_cutkinds() {
	b := verifNew()
	verifKindsOnce(b, verifParam("rot"))
	b.cut(4, len(b.tok), verifParam("par"))
	verifReach("tried")
}
