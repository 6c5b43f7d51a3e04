package srec19

// C04: one S3 record of an otherwise well-formed file is corrupted.

//verif:run C04 quick cpu=1 n=2 len=1 eol=0 reach=sum,char,start,drop,count
//verif:run C04 quick cpu=2 n=3 len=1 eol=1 reach=sum,char,start,drop,count
//verif:run C04 quick cpu=3 n=3 len=1 eol=0 reach=sum,char,start,drop,count
//verif:run C04 quick cpu=4 n=2 len=2 eol=0 reach=sum,char,start,drop,count
//verif:run C04,C06 quick cpu=2 n=1 len=1 eol=0 delays=1 race=1 reach=sum,char,start,drop,count
//verif:run C04,C06 thorough cpu=2 n=2 len=1 eol=0 delays=2 race=1 reach=sum,char,start,drop,count
//verif:run C04 thorough cpu=2 n=4 len=1 eol=1 reach=sum,char,start,drop,count
//verif:run C04 thorough cpu=3 n=4 len=2 eol=0 reach=sum,char,start,drop,count
func VerifH_srecCorrupt() {
	n, maxLen := verifParam("n"), verifParam("len")
	bad := verifChoose("which", n)
	how := verifChoose("how", 5)
	var recs [][]byte
	for i := 0; i < n; i++ {
		k := maxLen + 1
		if i == bad {
			k = verifChoose("kind", maxLen+1)
		} else if verifChoose("other", 2) == 0 {
			k = 1
		}
		if k > maxLen {
			recs = append(recs, verifOther(k-maxLen-1))
			continue
		}
		addr := verifU32("addr")
		var data []uint8
		for j := 0; j < k; j++ {
			data = append(data, verifU8("byte"))
		}
		if i != bad {
			recs = append(recs, verifRecBytes(addr, data, 0))
			continue
		}
		switch how {
		case 0: // wrong checksum
			e := verifU8("sumerr")
			verifAssume(e != 0)
			recs = append(recs, verifRecBytes(addr, data, e))
			verifReach("sum")
		case 1: // a character that is not a hex digit
			r := verifRecBytes(addr, data, 0)
			p := 2 + verifChoose("pos", len(r)-2)
			c := verifU8("char")
			verifAssume(verifNotHex(c))
			verifAssume(verifAnd(c != '\n', c != '\r'))
			r[p] = c
			recs = append(recs, r)
			verifReach("char")
		case 2: // another character in place of the S
			r := verifRecBytes(addr, data, 0)
			c := verifU8("char")
			verifAssume(c != 'S')
			verifAssume(verifAnd(c != '\n', c != '\r'))
			r[0] = c
			recs = append(recs, r)
			verifReach("start")
		case 3: // S missing
			r := verifRecBytes(addr, data, 0)
			recs = append(recs, r[1:])
			verifReach("drop")
		case 4: // byte count that does not match the data, checksum adapted
			r := verifRecBytes(addr, data, 0)
			m := verifU8("count")
			verifAssume(m != uint8(len(data)+5))
			sum := m
			for i := 24; i >= 0; i -= 8 {
				sum += uint8(addr >> i)
			}
			for _, d := range data {
				sum += d
			}
			c := verifHexPut(nil, m, false, false)
			r[2], r[3] = c[0], c[1]
			c = verifHexPut(nil, ^sum, false, false)
			r[len(r)-2], r[len(r)-1] = c[0], c[1]
			recs = append(recs, r)
			verifReach("count")
		}
	}
	recs = append(recs, verifEOF)
	eol := "\n"
	if verifParam("eol") == 1 {
		eol = "\r\n"
	}
	_, err := ParseFromFile(verifFile("f.s19", verifText(recs, eol, true)))
	verifAssert(err != nil, "a corrupt record is not reported")
}

func verifNotHex(c uint8) bool {
	d := verifAnd(c >= '0', c <= '9')
	u := verifAnd(c >= 'A', c <= 'F')
	l := verifAnd(c >= 'a', c <= 'f')
	return !verifOr(d, verifOr(u, l))
}
