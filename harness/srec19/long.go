package srec19

// C05: records of many bytes that touch, overlap or enclose each other at every distance.
//
//verif:run C05 quick cpu=1 lens=3 reach=overlap,disjoint
//verif:run C05 quick cpu=2 lens=2 reach=overlap,disjoint
//verif:run C05 thorough cpu=3 lens=6 reach=overlap,disjoint
func VerifH_srecOverlapLong() {
	lens := []int{3, 8, 17, 1, 33, 64}
	k := verifParam("lens")
	n, m := lens[verifChoose("first", k)], lens[verifChoose("second", k)]
	// from one byte in front of the first record to one byte behind it
	d := verifChoose("distance", n+m+3) - m - 1
	base := []uint32{0x100, 0x7ff8, 0xfff8, 0x7ffffff8, 0xfffffe00}[verifChoose("base", 5)]
	fill := func(l int) []uint8 {
		var b []uint8
		for i := 0; i < l; i++ {
			if i == 0 || i == l-1 || i == l/2 {
				b = append(b, verifU8("byte"))
			} else {
				b = append(b, uint8(i))
			}
		}
		return b
	}
	b1, b2 := fill(n), fill(m)
	a2 := uint32(int(base) + d)
	recs := [][]byte{
		verifOther(0),
		verifRecBytes(base, b1, 0),
		verifRecBytes(0x4000, []uint8{1, 2, 3}, 0),
		verifRecBytes(a2, b2, 0),
		verifEOF,
	}
	h, err := ParseFromFile(verifFile("f.s19", verifText(recs, "\n", true)))
	if d < n && -d < m {
		verifReach("overlap")
		verifAssert(err != nil, "overlapping addresses are not reported")
		return
	}
	verifReach("disjoint")
	verifAssert(err == nil, "a file without overlapping addresses is rejected")
	exp := []verifEntry{}
	for i, v := range []uint8{1, 2, 3} {
		exp = append(exp, verifEntry{0x4000 + uint32(i), v})
	}
	for i, v := range b1 {
		exp = append(exp, verifEntry{base + uint32(i), v})
	}
	for i, v := range b2 {
		exp = append(exp, verifEntry{a2 + uint32(i), v})
	}
	verifSame(h, exp)
}

// C04: a record of many bytes with one or two changed bytes, or with digits too many or too few.
//
//verif:run C04 quick cpu=1 lens=3 reach=changed,longer,shorter
//verif:run C04 quick cpu=2 lens=2 reach=changed,longer,shorter
//verif:run C04 thorough cpu=3 lens=5 reach=changed,longer,shorter
func VerifH_srecCorruptLong() {
	n := []int{4, 16, 33, 128, 250}[verifChoose("len", verifParam("lens"))]
	data := make([]uint8, n)
	for i := range data {
		data[i] = uint8(i * 7)
	}
	data[n-1] = verifU8("byte")
	addr := verifU32("addr")
	r := verifRecBytes(addr, data, 0)
	switch verifChoose("how", 3) {
	case 0: // one byte has another value, wherever it stands, and nothing else is changed
		p := verifChoose("where", n+5)
		e := verifU8("error")
		verifAssume(e != 0)
		v := uint8(n + 5)
		if p >= 5 {
			v = data[p-5]
		} else if p > 0 {
			v = uint8(addr >> uint(32-8*p))
		}
		c := verifHexPut(nil, v+e, false, false)
		r[2+2*p], r[3+2*p] = c[0], c[1]
		verifReach("changed")
	case 1: // more digits than the byte count says
		k := 1 + verifChoose("more", 3)
		for i := 0; i < k; i++ {
			r = append(r, '0')
		}
		verifReach("longer")
	case 2: // digits missing at the end
		k := 1 + verifChoose("less", 5)
		r = r[:len(r)-k]
		verifReach("shorter")
	}
	recs := [][]byte{
		verifOther(0),
		r,
		verifRecBytes(0x20, []uint8{7}, 0),
		verifEOF,
	}
	_, err := ParseFromFile(verifFile("f.s19", verifText(recs, "\n", true)))
	verifAssert(err != nil, "a corrupt record is not reported")
}
