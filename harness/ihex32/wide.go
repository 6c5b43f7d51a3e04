package ihex32

// Files of many records, most of them concrete: every place of a record relative to the
// parts of the workers occurs.

var verifWides = []int{5, 6, 7, 9, 12, 17, 24, 33, 50, 130, 260, 1030}

func verifWideN() int {
	lo, hi := verifParam("from"), verifParam("to")
	return verifWides[lo+verifChoose("records", hi-lo)]
}

// verifWideAt is any place of n, of very many only every few.
func verifWideAt(name string, n int) int {
	if n < 100 {
		return verifChoose(name, n)
	}
	step := n / 16
	return (step*verifChoose(name, 17) + n - 1) % n
}

// C01, C06: extended addresses at any two places, the bytes of a record near them symbolic.
//
//verif:run C01 quick cpu=1 from=0 to=5 reach=read
//verif:run C01,C06 quick cpu=2 from=0 to=6 reach=read
//verif:run C01,C06 quick cpu=3 from=2 to=7 reach=read
//verif:run C01,C06 quick cpu=4 from=4 to=7 reach=read
//verif:run C06 quick cpu=8 from=6 to=9 reach=read
//verif:run C01 quick cpu=2 from=9 to=11 reach=read
//verif:run C01 thorough cpu=4 from=9 to=12 reach=read
//verif:run C01 thorough cpu=2 from=6 to=9 reach=read
//verif:run C01,C06 thorough cpu=5 from=4 to=9 reach=read
//verif:run C01,C06 thorough cpu=7 from=4 to=9 reach=read
func VerifH_ihexWide() {
	n := verifWideN()
	p1 := verifWideAt("first", n)
	p2 := p1 + []int{1, 2, 5}[verifChoose("gap", 3)]
	at := []int{p1 - 1, p1 + 1, p2 + 1}[verifChoose("at", 3)]
	second := verifChoose("second", 3)
	if at < 0 || at >= n || p2 > n {
		return
	}
	var recs [][]byte
	var exp []verifEntry
	upper := uint16(0)
	for i := 0; i < n; i++ {
		if i == p2 && second == 2 { // a start address
			recs = append(recs, verifRecBytes(5, 0, []uint8{0x12, verifU8("start"), 0, 0x78}, 0))
			continue
		}
		if i == p1 || i == p2 {
			upper = 0x8123
			if i == p2 {
				upper = []uint16{0, 0x7F}[second]
			}
			recs = append(recs, verifRecBytes(4, 0, []uint8{uint8(upper >> 8), uint8(upper)}, 0))
			continue
		}
		a := uint16(i * 4)
		var d []uint8
		for j := 0; j < 1+i%3; j++ {
			v := uint8(i*7 + j)
			if i == at {
				v = verifU8("byte")
			}
			d = append(d, v)
			exp = append(exp, verifEntry{uint32(upper)<<16 + uint32(a) + uint32(j), v})
		}
		recs = append(recs, verifRecBytes(0, a, d, 0))
	}
	recs = append(recs, verifEOF)
	h, err := ParseFromFile(verifFile("f.hex", verifText(recs, "\n", true)))
	verifReach("read")
	verifAssert(err == nil, "a well-formed file is rejected")
	verifSame(h, exp)
}

// C02, C06: any one of many records is corrupt.
//
//verif:run C02 quick cpu=1 from=3 to=5 reach=tried
//verif:run C02,C06 quick cpu=2 from=0 to=6 reach=tried
//verif:run C02,C06 quick cpu=3 from=2 to=7 reach=tried
//verif:run C02,C06 quick cpu=4 from=4 to=8 reach=tried
//verif:run C02 quick cpu=8 from=6 to=9 reach=tried
//verif:run C02 quick cpu=2 from=9 to=11 reach=tried
//verif:run C02 thorough cpu=4 from=9 to=12 reach=tried
//verif:run C02 thorough cpu=2 from=6 to=9 reach=tried
//verif:run C02,C06 thorough cpu=5 from=4 to=9 reach=tried
//verif:run C02,C06 thorough cpu=7 from=4 to=9 reach=tried
func VerifH_ihexWideBad() {
	n := verifWideN()
	bad := verifWideAt("bad", n)
	var recs [][]byte
	for i := 0; i < n; i++ {
		d := []uint8{uint8(i), uint8(i * 3), uint8(i * 5)}[:1+i%3]
		e := uint8(0)
		how := -1
		if i == bad {
			how = verifChoose("how", 4)
		}
		if how == 0 {
			e = verifU8("sumerr")
			verifAssume(e != 0)
		}
		r := verifRecBytes(0, uint16(i*4), d, e)
		switch how {
		case 1:
			c := verifU8("char")
			verifAssume(verifNotHex(c))
			verifAssume(verifAnd(c != '\n', c != '\r'))
			r[len(r)-1-verifChoose("pos", 4)] = c
		case 2:
			r = r[1:]
		case 3: // one data byte differs from what was written
			x := verifU8("flip")
			verifAssume(x != 0)
			d = append([]uint8{}, d...)
			d[0] ^= x
			y := verifRecBytes(0, uint16(i*4), d, 0)
			copy(y[len(y)-2:], r[len(r)-2:])
			r = y
		}
		recs = append(recs, r)
	}
	recs = append(recs, verifEOF)
	_, err := ParseFromFile(verifFile("f.hex", verifText(recs, "\n", true)))
	verifAssert(err != nil, "a corrupt record is not reported")
	verifReach("tried")
}

// C05, C06: any one of many records stands at any address of the first 64 kB.
//
//verif:run C05 quick cpu=1 from=1 to=2 reach=overlap,disjoint
//verif:run C05,C06 quick cpu=2 from=1 to=4 reach=overlap,disjoint
//verif:run C05,C06 quick cpu=3 from=4 to=5 reach=overlap,disjoint
//verif:run C05 thorough cpu=4 from=4 to=7 reach=overlap,disjoint
//verif:run C05 thorough cpu=5 from=6 to=8 reach=overlap,disjoint
func VerifH_ihexWideOverlap() {
	n := verifWideN()
	at := verifChoose("at", n)
	var recs [][]byte
	var exp []verifEntry
	for i := 0; i < n; i++ {
		a := uint16(i * 5)
		v := uint8(i)
		if i == at {
			a, v = verifU16("addr"), verifU8("byte")
		}
		recs = append(recs, verifRecBytes(0, a, []uint8{v}, 0))
		exp = append(exp, verifEntry{uint32(a), v})
	}
	recs = append(recs, verifEOF)
	h, err := ParseFromFile(verifFile("f.hex", verifText(recs, "\n", true)))
	if verifDistinct(exp) {
		verifReach("disjoint")
		verifAssert(err == nil, "a file without overlapping addresses is rejected")
		verifSame(h, exp)
	} else {
		verifReach("overlap")
		verifAssert(err != nil, "overlapping addresses are not reported")
	}
}
