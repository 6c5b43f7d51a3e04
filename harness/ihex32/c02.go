package ihex32

// C02: one record of an otherwise well-formed file is corrupted.

//verif:run C02 quick cpu=1 n=2 len=1 eol=0 reach=sum,char,colon,drop,count
//verif:run C02 quick cpu=2 n=3 len=1 eol=1 reach=sum,char,colon,drop,count
//verif:run C02 quick cpu=3 n=3 len=1 eol=0 reach=sum,char,colon,drop,count
//verif:run C02 quick cpu=4 n=2 len=2 eol=0 reach=sum,char,colon,drop,count
//verif:run C02,C06 quick cpu=2 n=1 len=1 eol=0 delays=1 race=1 reach=sum,char,colon,drop,count
//verif:run C02,C06 thorough cpu=2 n=2 len=1 eol=0 delays=2 race=1 reach=sum,char,colon,drop,count
//verif:run C02 thorough cpu=2 n=5 len=1 eol=1 reach=sum,char,colon,drop,count
//verif:run C02 thorough cpu=3 n=4 len=2 eol=0 reach=sum,char,colon,drop,count
func VerifH_ihexCorrupt() {
	n, maxLen := verifParam("n"), verifParam("len")
	bad := verifChoose("which", n+1)
	how := verifChoose("how", 5)
	var recs [][]byte
	for i := 0; i <= n; i++ {
		var typ uint8
		var addr uint16
		var data []uint8
		if i == n {
			typ = 1
		} else if k := verifChoose("kind", maxLen+2); k == maxLen+1 {
			typ = 4
			data = []uint8{verifU8("byte"), verifU8("byte")}
		} else {
			addr = verifU16("addr")
			for j := 0; j < k; j++ {
				data = append(data, verifU8("byte"))
			}
		}
		if i != bad {
			recs = append(recs, verifRecBytes(typ, addr, data, 0))
			continue
		}
		switch how {
		case 0: // wrong checksum
			e := verifU8("sumerr")
			verifAssume(e != 0)
			recs = append(recs, verifRecBytes(typ, addr, data, e))
			verifReach("sum")
		case 1: // a character that is not a hex digit
			r := verifRecBytes(typ, addr, data, 0)
			p := 1 + verifChoose("pos", len(r)-1)
			c := verifU8("char")
			verifAssume(verifNotHex(c))
			verifAssume(verifAnd(c != '\n', c != '\r'))
			r[p] = c
			recs = append(recs, r)
			verifReach("char")
		case 2: // another character in place of the colon
			r := verifRecBytes(typ, addr, data, 0)
			c := verifU8("char")
			verifAssume(c != ':')
			verifAssume(verifAnd(c != '\n', c != '\r'))
			r[0] = c
			recs = append(recs, r)
			verifReach("colon")
		case 3: // colon missing
			r := verifRecBytes(typ, addr, data, 0)
			recs = append(recs, r[1:])
			verifReach("drop")
		case 4: // byte count that does not match the data, checksum adapted
			r := verifRecBytes(typ, addr, data, 0)
			m := verifU8("count")
			verifAssume(m != uint8(len(data)))
			sum := m + uint8(addr>>8) + uint8(addr) + typ
			for _, d := range data {
				sum += d
			}
			c := verifHexPut(nil, m, false, false)
			r[1], r[2] = c[0], c[1]
			c = verifHexPut(nil, -sum, false, false)
			r[len(r)-2], r[len(r)-1] = c[0], c[1]
			recs = append(recs, r)
			verifReach("count")
		}
	}
	eol := "\n"
	if verifParam("eol") == 1 {
		eol = "\r\n"
	}
	_, err := ParseFromFile(verifFile("f.hex", verifText(recs, eol, true)))
	verifAssert(err != nil, "a corrupt record is not reported")
}

func verifNotHex(c uint8) bool {
	d := verifAnd(c >= '0', c <= '9')
	u := verifAnd(c >= 'A', c <= 'F')
	l := verifAnd(c >= 'a', c <= 'f')
	return !verifOr(d, verifOr(u, l))
}
