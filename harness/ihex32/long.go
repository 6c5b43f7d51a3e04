package ihex32

// C05: records of many bytes that touch, overlap or enclose each other at every distance.
//
//verif:run C05 quick cpu=1 lens=3 reach=overlap,disjoint
//verif:run C05 quick cpu=2 lens=2 reach=overlap,disjoint
//verif:run C05 thorough cpu=3 lens=6 reach=overlap,disjoint
func VerifH_ihexOverlapLong() {
	lens := []int{3, 8, 17, 1, 33, 64}
	k := verifParam("lens")
	n, m := lens[verifChoose("first", k)], lens[verifChoose("second", k)]
	// from one byte in front of the first record to one byte behind it
	d := verifChoose("distance", n+m+3) - m - 1
	up := []uint16{0, 1, 0xffff}[verifChoose("upper", 3)]
	base := []uint16{0x100, 0x7ff8, 0xff00}[verifChoose("base", 3)]
	fill := func(l int) []uint8 {
		var b []uint8
		for i := 0; i < l; i++ {
			if i == 0 || i == l-1 || i == l/2 {
				b = append(b, verifU8("byte"))
			} else {
				b = append(b, uint8(i))
			}
		}
		return b
	}
	b1, b2 := fill(n), fill(m)
	a2 := uint16(int(base) + d)
	recs := [][]byte{
		verifRecBytes(4, 0, []uint8{uint8(up >> 8), uint8(up)}, 0),
		verifRecBytes(0, base, b1, 0),
		verifRecBytes(0, 0x4000, []uint8{1, 2, 3}, 0),
		verifRecBytes(0, a2, b2, 0),
		verifEOF,
	}
	h, err := ParseFromFile(verifFile("f.hex", verifText(recs, "\n", true)))
	if d < n && -d < m {
		verifReach("overlap")
		verifAssert(err != nil, "overlapping addresses are not reported")
		return
	}
	verifReach("disjoint")
	verifAssert(err == nil, "a file without overlapping addresses is rejected")
	exp := []verifEntry{}
	at := uint32(up) << 16
	for i, v := range []uint8{1, 2, 3} {
		exp = append(exp, verifEntry{at + 0x4000 + uint32(i), v})
	}
	for i, v := range b1 {
		exp = append(exp, verifEntry{at + uint32(base) + uint32(i), v})
	}
	for i, v := range b2 {
		exp = append(exp, verifEntry{at + uint32(a2) + uint32(i), v})
	}
	verifSame(h, exp)
}

// C02: a record of many bytes with one or two changed bytes, or with digits too many or too few.
//
//verif:run C02 quick cpu=1 lens=3 reach=changed,longer,shorter
//verif:run C02 quick cpu=2 lens=2 reach=changed,longer,shorter
//verif:run C02 thorough cpu=3 lens=5 reach=changed,longer,shorter
func VerifH_ihexCorruptLong() {
	n := []int{4, 16, 33, 128, 255}[verifChoose("len", verifParam("lens"))]
	data := make([]uint8, n)
	for i := range data {
		data[i] = uint8(i * 7)
	}
	data[n-1] = verifU8("byte")
	addr := verifU16("addr")
	r := verifRecBytes(0, addr, data, 0)
	switch verifChoose("how", 3) {
	case 0: // one byte has another value, wherever it stands, and nothing else is changed
		p := verifChoose("where", n+4)
		e := verifU8("error")
		verifAssume(e != 0)
		if p == 0 {
			// the byte count
			c := verifHexPut(nil, uint8(n)+e, false, false)
			r[1], r[2] = c[0], c[1]
		} else if p < 3 {
			v := uint8(addr)
			if p == 1 {
				v = uint8(addr >> 8)
			}
			c := verifHexPut(nil, v+e, false, false)
			r[1+2*p], r[2+2*p] = c[0], c[1]
		} else if p == 3 {
			c := verifHexPut(nil, e, false, false)
			r[1+2*p], r[2+2*p] = c[0], c[1]
		} else {
			c := verifHexPut(nil, data[p-4]+e, false, false)
			r[1+2*p], r[2+2*p] = c[0], c[1]
		}
		verifReach("changed")
	case 1: // more digits than the byte count says
		k := 1 + verifChoose("more", 3)
		for i := 0; i < k; i++ {
			r = append(r, '0')
		}
		verifReach("longer")
	case 2: // digits missing at the end
		k := 1 + verifChoose("less", 5)
		r = r[:len(r)-k]
		verifReach("shorter")
	}
	recs := [][]byte{
		verifRecBytes(0, 0x20, []uint8{9}, 0),
		verifRecBytes(4, 0, []uint8{0, 1}, 0),
		r,
		verifRecBytes(4, 0, []uint8{0, 2}, 0),
		verifRecBytes(0, 0x20, []uint8{7}, 0),
		verifEOF,
	}
	_, err := ParseFromFile(verifFile("f.hex", verifText(recs, "\n", true)))
	verifAssert(err != nil, "a corrupt record is not reported")
}
