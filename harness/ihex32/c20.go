package ihex32

// C20: arbitrary content terminates without panic.

//verif:run C20 quick cpu=1 n=1 len=16 reach=end
//verif:run C20 quick cpu=2 n=2 len=13 reach=end
//verif:run C20 thorough cpu=1 n=2 len=15 reach=end
//verif:run C20 thorough cpu=2 n=3 len=13 reach=end
func VerifH_ihexAnyLines() {
	n, max := verifParam("n"), verifParam("len")
	var t []byte
	for i := 0; i < n; i++ {
		k := verifChoose("length", max+1)
		l := verifBytes("line", k)
		for j := 0; j < k; j++ {
			verifAssume(verifAnd(l[j] != '\n', l[j] != '\r'))
		}
		t = append(t, l...)
		t = append(t, '\n')
	}
	_, _ = ParseFromFile(verifFile("f.hex", string(t)))
	verifReach("end")
}

// records with arbitrary fields and lengths that pass the start-character test
//
//verif:run C20 quick cpu=1 n=1 len=19 reach=end
//verif:run C20 quick cpu=2 n=2 len=16 reach=end
//verif:run C20 thorough cpu=2 n=3 len=16 reach=end
func VerifH_ihexAnyRecords() {
	n, max := verifParam("n"), verifParam("len")
	var t []byte
	for i := 0; i < n; i++ {
		k := 9 + verifChoose("length", max-8)
		l := verifBytes("line", k)
		t = append(t, ':')
		for j := 0; j < k; j++ {
			verifAssume(!verifNotHex(l[j]))
		}
		t = append(t, l...)
		t = append(t, '\n')
	}
	_, _ = ParseFromFile(verifFile("f.hex", string(t)))
	verifReach("end")
}

//verif:run C20 quick cpu=2 len=6 reach=end
//verif:run C20 thorough cpu=2 len=9 reach=end
func VerifH_ihexAnyText() {
	k := verifChoose("length", verifParam("len")+1)
	_, _ = ParseFromFile(verifFile("f.hex", verifBytes("text", k)))
	_, err := ParseFromFile("/nonexistent/f.hex")
	verifAssert(err != nil, "a missing file is not reported")
	verifReach("end")
}

// C20: a line of any few characters at any place of many lines.
//
//verif:run C20 quick cpu=1 len=2 from=2 to=3 reach=end
//verif:run C20 quick cpu=2 len=2 from=3 to=5 reach=end
//verif:run C20 quick cpu=3 len=2 from=4 to=5 reach=end
//verif:run C20 quick cpu=8 len=1 from=5 to=7 reach=end
//verif:run C20 thorough cpu=4 len=3 from=5 to=9 reach=end
func VerifH_ihexWideAny() {
	n := verifWideN()
	bad := verifChoose("bad", n)
	var recs [][]byte
	for i := 0; i < n; i++ {
		r := verifRecBytes(0, uint16(i*4), []uint8{uint8(i)}, 0)
		if i == bad {
			b := verifBytes("any", verifParam("len"))
			switch verifChoose("how", 3) {
			case 0:
				r = []byte(b)
			case 1:
				r = append([]byte(":"), b...)
			case 2: // behind a record
				r = append(r, b...)
			}
		}
		recs = append(recs, r)
	}
	ParseFromFile(verifFile("f.hex", verifText(recs, "\n", true)))
	verifReach("end")
}

// C20: a long line with any byte count and kind.
//
//verif:run C20 quick cpu=1 reach=end
//verif:run C20 thorough cpu=4 reach=end
func VerifH_ihexLongLine() {
	n := []int{64, 127, 254, 255, 256, 300}[verifChoose("bytes", 6)]
	b := []byte(":")
	b = verifHexPut(b, verifU8("count"), false, false)
	for i := 0; i < n; i++ {
		v := uint8(0)
		if i == 2 || i == n-1 {
			v = verifU8("byte")
		}
		b = verifHexPut(b, v, false, false)
	}
	b = b[:len(b)-verifChoose("odd", 2)]
	ParseFromFile(verifFile("f.hex", verifText([][]byte{b}, "\n", true)))
	verifReach("end")
}
