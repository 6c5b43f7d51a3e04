package ihex32

// C01: a well-formed file decodes to exactly its bytes. The same harness at different
// processor counts and schedules decides C06: the expected image does not depend on them.

//verif:run C01 quick cpu=1 n=2 len=3 mix=0 eol=0 tail=1 reach=read
//verif:run C01 quick cpu=1 n=2 len=1 mix=14 eol=1 tail=0 reach=read
//verif:run C01 quick cpu=1 n=4 len=1 mix=0 eol=0 tail=0 reach=read
//verif:run C01,C06 quick cpu=2 n=4 len=1 mix=0 eol=0 tail=1 reach=read
//verif:run C01,C06 quick cpu=3 n=4 len=1 mix=0 eol=1 tail=0 reach=read
//verif:run C01,C06 quick cpu=4 n=3 len=1 mix=0 eol=0 tail=0 reach=read
//verif:run C06 quick cpu=8 n=3 len=1 mix=0 eol=0 tail=1 reach=read
//verif:run C06 thorough cpu=2 n=2 len=1 mix=0 eol=0 tail=0 delays=2 race=1 reach=read
//verif:run C06 quick cpu=2 n=1 len=1 mix=0 eol=0 tail=1 delays=2 race=1 reach=read
//verif:run C06 quick cpu=3 n=3 len=1 mix=0 eol=0 tail=0 delays=1 race=1 reach=read
//verif:run C01 thorough cpu=1 n=3 len=3 mix=0 eol=0 tail=1 reach=read
//verif:run C01,C06 thorough cpu=2 n=6 len=1 mix=0 eol=0 tail=1 reach=read
//verif:run C01,C06 thorough cpu=3 n=6 len=1 mix=0 eol=0 tail=0 reach=read
//verif:run C01,C06 thorough cpu=4 n=5 len=1 mix=0 eol=0 tail=0 reach=read
//verif:run C06 thorough cpu=2 n=3 len=1 mix=0 eol=0 tail=0 delays=3 race=1 reach=read
//verif:run C06 thorough cpu=4 n=4 len=1 mix=0 eol=0 tail=0 delays=1 race=1 reach=read
func VerifH_ihexDecode() {
	if m := verifParam("mix"); m > 0 {
		verifMix(m)
	}
	recs, exp := verifImage(verifParam("n"), verifParam("len"))
	verifAssume(verifDistinct(exp))
	eol := "\n"
	if verifParam("eol") == 1 {
		eol = "\r\n"
	}
	tail := verifParam("tail") == 1
	if tail {
		recs = append(recs, []byte(":0400000500000080"+"77"), verifEOF)
	}
	h, err := ParseFromFile(verifFile("f.hex", verifText(recs, eol, tail)))
	verifReach("read")
	verifAssert(err == nil, "a well-formed file is rejected")
	verifSame(h, exp)
}

// long records: one extended address and one data record of len bytes, split over lines in
// the order data, address, data.
//
//verif:run C01 quick cpu=1 len=16 mix=0 reach=read
//verif:run C01 quick cpu=2 len=32 mix=0 reach=read
//verif:run C01 quick cpu=1 len=255 mix=0 reach=read
func VerifH_ihexLong() {
	n := verifParam("len")
	mk := func() []uint8 {
		var d []uint8
		for i := 0; i < n; i++ {
			d = append(d, verifU8("byte"))
		}
		return d
	}
	a1 := verifU16("addr")
	d1 := mk()
	up := verifU16("upper")
	a2 := verifU16("addr")
	d2 := []uint8{verifU8("byte"), verifU8("byte")}
	var exp []verifEntry
	for i, v := range d1 {
		exp = append(exp, verifEntry{uint32(a1) + uint32(i), v})
	}
	for i, v := range d2 {
		exp = append(exp, verifEntry{uint32(up)<<16 + uint32(a2) + uint32(i), v})
	}
	// the two records do not overlap
	x, y := uint32(a1), uint32(up)<<16+uint32(a2)
	verifAssume(y-x >= uint32(n))
	verifAssume(x-y >= 2)
	recs := [][]byte{
		verifRecBytes(0, a1, d1, 0),
		verifRecBytes(4, 0, []uint8{uint8(up >> 8), uint8(up)}, 0),
		verifRecBytes(0, a2, d2, 0),
		verifEOF,
	}
	h, err := ParseFromFile(verifFile("f.hex", verifText(recs, "\n", true)))
	verifReach("read")
	verifAssert(err == nil, "a well-formed file is rejected")
	verifSame(h, exp)
}
