package srec19

// C03: a well-formed file decodes to exactly its bytes. The same harness at different
// processor counts and schedules decides C06: the expected image does not depend on them.

//verif:run C03 quick cpu=1 n=2 len=3 mix=0 eol=0 tail=1 reach=read
//verif:run C03 quick cpu=1 n=2 len=1 mix=14 eol=1 tail=0 reach=read
//verif:run C03 quick cpu=1 n=3 len=1 mix=0 eol=0 tail=0 reach=read
//verif:run C03,C06 quick cpu=2 n=3 len=1 mix=0 eol=0 tail=1 reach=read
//verif:run C03,C06 quick cpu=3 n=4 len=1 mix=0 eol=1 tail=0 reach=read
//verif:run C03,C06 quick cpu=4 n=3 len=1 mix=0 eol=0 tail=0 reach=read
//verif:run C06 quick cpu=8 n=3 len=1 mix=0 eol=0 tail=1 reach=read
//verif:run C06 quick cpu=2 n=1 len=1 mix=0 eol=0 tail=1 delays=2 race=1 reach=read
//verif:run C06 quick cpu=3 n=2 len=1 mix=0 eol=0 tail=0 delays=1 race=1 reach=read
//verif:run C03 thorough cpu=1 n=3 len=3 mix=0 eol=0 tail=1 reach=read
//verif:run C03,C06 thorough cpu=2 n=5 len=1 mix=0 eol=0 tail=1 reach=read
//verif:run C03,C06 thorough cpu=3 n=5 len=1 mix=0 eol=0 tail=0 reach=read
//verif:run C03,C06 thorough cpu=4 n=5 len=1 mix=0 eol=0 tail=0 reach=read
//verif:run C06 thorough cpu=2 n=2 len=1 mix=0 eol=0 tail=0 delays=3 race=1 reach=read
//verif:run C06 thorough cpu=4 n=3 len=1 mix=0 eol=0 tail=0 delays=1 race=1 reach=read
func VerifH_srecDecode() {
	if m := verifParam("mix"); m > 0 {
		verifMix(m)
	}
	recs, exp := verifImage(verifParam("n"), verifParam("len"))
	verifAssume(verifDistinct(exp))
	eol := "\n"
	if verifParam("eol") == 1 {
		eol = "\r\n"
	}
	tail := verifParam("tail") == 1
	if tail {
		recs = append(recs, verifEOF)
	}
	h, err := ParseFromFile(verifFile("f.s19", verifText(recs, eol, tail)))
	verifReach("read")
	verifAssert(err == nil, "a well-formed file is rejected")
	verifSame(h, exp)
}

// long records
//
//verif:run C03 quick cpu=1 len=16 reach=read
//verif:run C03 quick cpu=2 len=32 reach=read
//verif:run C03 quick cpu=1 len=64 reach=read
func VerifH_srecLong() {
	n := verifParam("len")
	a1 := verifU32("addr")
	var d1 []uint8
	for i := 0; i < n; i++ {
		d1 = append(d1, verifU8("byte"))
	}
	a2 := verifU32("addr")
	d2 := []uint8{verifU8("byte"), verifU8("byte")}
	var exp []verifEntry
	for i, v := range d1 {
		exp = append(exp, verifEntry{a1 + uint32(i), v})
	}
	for i, v := range d2 {
		exp = append(exp, verifEntry{a2 + uint32(i), v})
	}
	// the two records do not overlap
	verifAssume(a2-a1 >= uint32(n))
	verifAssume(a1-a2 >= 2)
	recs := [][]byte{
		verifOther(0),
		verifRecBytes(a1, d1, 0),
		verifRecBytes(a2, d2, 0),
		verifEOF,
	}
	h, err := ParseFromFile(verifFile("f.s19", verifText(recs, "\n", true)))
	verifReach("read")
	verifAssert(err == nil, "a well-formed file is rejected")
	verifSame(h, exp)
}
