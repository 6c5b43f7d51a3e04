package srec19

// Files of many records, most of them concrete: every place of a record relative to the
// parts of the workers occurs.

var verifWides = []int{5, 6, 7, 9, 12, 17, 24, 33, 50, 130, 260, 1030}

func verifWideN() int {
	lo, hi := verifParam("from"), verifParam("to")
	return verifWides[lo+verifChoose("records", hi-lo)]
}

// verifWideAt is any place of n, of very many only every few.
func verifWideAt(name string, n int) int {
	if n < 100 {
		return verifChoose(name, n)
	}
	step := n / 16
	return (step*verifChoose(name, 17) + n - 1) % n
}

// C03, C06: another record at any place, the bytes of a record symbolic.
//
//verif:run C03 quick cpu=1 from=0 to=5 reach=read
//verif:run C03,C06 quick cpu=2 from=0 to=6 reach=read
//verif:run C03,C06 quick cpu=3 from=2 to=7 reach=read
//verif:run C03,C06 quick cpu=4 from=4 to=8 reach=read
//verif:run C03,C06 quick cpu=8 from=6 to=9 reach=read
//verif:run C03 quick cpu=2 from=9 to=11 reach=read
//verif:run C03 thorough cpu=4 from=9 to=12 reach=read
//verif:run C03 thorough cpu=2 from=6 to=9 reach=read
//verif:run C03,C06 thorough cpu=5 from=4 to=9 reach=read
//verif:run C03,C06 thorough cpu=7 from=4 to=9 reach=read
func VerifH_srecWide() {
	n := verifWideN()
	p := verifWideAt("other", n)
	kind := verifChoose("kind", 3)
	at := p + []int{-1, 1, 2}[verifChoose("at", 3)]
	if at < 0 || at >= n {
		return
	}
	var recs [][]byte
	var exp []verifEntry
	for i := 0; i < n; i++ {
		if i == p {
			recs = append(recs, verifOther(kind))
			continue
		}
		a := 0x8000FFF0 + uint32(i*4)
		var d []uint8
		for j := 0; j < 1+i%3; j++ {
			v := uint8(i*7 + j)
			if i == at {
				v = verifU8("byte")
			}
			d = append(d, v)
			exp = append(exp, verifEntry{a + uint32(j), v})
		}
		recs = append(recs, verifRecBytes(a, d, 0))
	}
	h, err := ParseFromFile(verifFile("f.s19", verifText(recs, "\n", true)))
	verifReach("read")
	verifAssert(err == nil, "a well-formed file is rejected")
	verifSame(h, exp)
}

// C04, C06: any one of many records is corrupt.
//
//verif:run C04 quick cpu=1 from=3 to=5 reach=tried
//verif:run C04,C06 quick cpu=2 from=0 to=6 reach=tried
//verif:run C04,C06 quick cpu=3 from=2 to=7 reach=tried
//verif:run C04,C06 quick cpu=4 from=4 to=8 reach=tried
//verif:run C04 quick cpu=8 from=6 to=9 reach=tried
//verif:run C04 quick cpu=2 from=9 to=11 reach=tried
//verif:run C04 thorough cpu=4 from=9 to=12 reach=tried
//verif:run C04 thorough cpu=2 from=6 to=9 reach=tried
//verif:run C04,C06 thorough cpu=5 from=4 to=9 reach=tried
//verif:run C04,C06 thorough cpu=7 from=4 to=9 reach=tried
func VerifH_srecWideBad() {
	n := verifWideN()
	bad := verifWideAt("bad", n)
	var recs [][]byte
	for i := 0; i < n; i++ {
		d := []uint8{uint8(i), uint8(i * 3), uint8(i * 5)}[:1+i%3]
		e := uint8(0)
		how := -1
		if i == bad {
			how = verifChoose("how", 4)
		}
		if how == 0 {
			e = verifU8("sumerr")
			verifAssume(e != 0)
		}
		r := verifRecBytes(uint32(i*4), d, e)
		switch how {
		case 1:
			c := verifU8("char")
			verifAssume(verifNotHex(c))
			verifAssume(verifAnd(c != '\n', c != '\r'))
			r[len(r)-1-verifChoose("pos", 4)] = c
		case 2:
			r = r[1:]
		case 3: // one data byte differs from what was written
			x := verifU8("flip")
			verifAssume(x != 0)
			d = append([]uint8{}, d...)
			d[0] ^= x
			y := verifRecBytes(uint32(i*4), d, 0)
			copy(y[len(y)-2:], r[len(r)-2:])
			r = y
		}
		recs = append(recs, r)
	}
	recs = append(recs, verifEOF)
	_, err := ParseFromFile(verifFile("f.s19", verifText(recs, "\n", true)))
	verifAssert(err != nil, "a corrupt record is not reported")
	verifReach("tried")
}

// C05, C06: any one of many records stands at any address.
//
//verif:run C05 quick cpu=1 from=1 to=2 reach=overlap,disjoint
//verif:run C05,C06 quick cpu=2 from=1 to=4 reach=overlap,disjoint
//verif:run C05,C06 quick cpu=3 from=4 to=5 reach=overlap,disjoint
//verif:run C05 thorough cpu=4 from=4 to=7 reach=overlap,disjoint
//verif:run C05 thorough cpu=5 from=6 to=8 reach=overlap,disjoint
func VerifH_srecWideOverlap() {
	n := verifWideN()
	at := verifChoose("at", n)
	var recs [][]byte
	var exp []verifEntry
	for i := 0; i < n; i++ {
		a := uint32(i)<<(i%24) | uint32(i)<<24
		v := uint8(i)
		if i == at {
			a, v = verifU32("addr"), verifU8("byte")
		}
		recs = append(recs, verifRecBytes(a, []uint8{v}, 0))
		exp = append(exp, verifEntry{a, v})
	}
	recs = append(recs, verifEOF)
	h, err := ParseFromFile(verifFile("f.s19", verifText(recs, "\n", true)))
	if verifDistinct(exp) {
		verifReach("disjoint")
		verifAssert(err == nil, "a file without overlapping addresses is rejected")
		verifSame(h, exp)
	} else {
		verifReach("overlap")
		verifAssert(err != nil, "overlapping addresses are not reported")
	}
}
