package srec19

// Building blocks of the S-record harnesses: texts are built from symbolic values, and the
// expected content is computed by the format's definition.

const verifDigits = "0123456789ABCDEF0123456789abcdef"

// verifHex2 renders one byte as two hex digits; lo selects lower case per digit.
func verifHexPut(b []byte, v uint8, lo1, lo2 bool) []byte {
	i, j := v>>4, v&15
	i |= uint8(verifIteU64(lo1, 16, 0))
	j |= uint8(verifIteU64(lo2, 16, 0))
	return append(b, verifDigits[i], verifDigits[j])
}

type verifEntry struct {
	addr uint32
	val  uint8
}

// verifCase decides the letter case of the digits: all upper, all lower, or the digits of
// the byte at position at of the file in any case and the others upper or lower.
var verifCase struct {
	mix   bool
	lower bool
	at, i int
}

func verifMix(bytes int) {
	verifCase.mix = true
	verifCase.lower = verifChoose("case", 2) == 1
	verifCase.at = verifChoose("mixed", bytes)
	verifCase.i = 0
}

func verifPut(b []byte, v uint8) []byte {
	if !verifCase.mix {
		return verifHexPut(b, v, false, false)
	}
	verifCase.i++
	if verifCase.i-1 == verifCase.at {
		return verifHexPut(b, v, verifBool("lower"), verifBool("lower"))
	}
	return verifHexPut(b, v, verifCase.lower, verifCase.lower)
}

// verifRecBytes builds one S3 record.
func verifRecBytes(addr uint32, data []uint8, sumErr uint8) []byte {
	b := []byte{'S', '3'}
	n := uint8(len(data) + 5)
	sum := n
	b = verifPut(b, n)
	for i := 24; i >= 0; i -= 8 {
		sum += uint8(addr >> i)
		b = verifPut(b, uint8(addr>>i))
	}
	for _, d := range data {
		b = verifPut(b, d)
		sum += d
	}
	return verifPut(b, ^sum+sumErr)
}

// verifOther builds a record without data: header, count or termination.
func verifOther(which int) []byte {
	switch which {
	case 0: // header with symbolic text
		a, c := verifU8("byte"), verifU8("byte")
		b := verifHexPut([]byte("S0050000"), a, false, false)
		b = verifHexPut(b, c, false, false)
		return verifHexPut(b, ^(5 + a + c), false, false)
	case 1: // count
		a := verifU16("count")
		b := verifHexPut([]byte("S503"), uint8(a>>8), false, false)
		b = verifHexPut(b, uint8(a), false, false)
		return verifHexPut(b, ^(3 + uint8(a>>8) + uint8(a)), false, false)
	}
	b := []byte("S705") // start address
	a := verifU32("start")
	sum := uint8(5)
	for i := 24; i >= 0; i -= 8 {
		sum += uint8(a >> i)
		b = verifHexPut(b, uint8(a>>i), false, false)
	}
	return verifHexPut(b, ^sum, false, false)
}

// verifImage builds n symbolic records (S3 records of up to maxLen bytes or other records)
// and the entries they describe.
func verifImage(n, maxLen int) (recs [][]byte, exp []verifEntry) {
	for i := 0; i < n; i++ {
		k := verifChoose("kind", maxLen+4)
		if k > maxLen {
			recs = append(recs, verifOther(k-maxLen-1))
			continue
		}
		a := verifU32("addr")
		var data []uint8
		for j := 0; j < k; j++ {
			v := verifU8("byte")
			data = append(data, v)
			exp = append(exp, verifEntry{a + uint32(j), v})
		}
		recs = append(recs, verifRecBytes(a, data, 0))
	}
	return recs, exp
}

func verifText(recs [][]byte, eol string, lastEol bool) string {
	var t []byte
	for i, r := range recs {
		t = append(t, r...)
		if i+1 < len(recs) || lastEol {
			t = append(t, eol...)
		}
	}
	return string(t)
}

var verifEOF = []byte("S70500000000FA")

// verifDistinct: no two entries at one address.
func verifDistinct(exp []verifEntry) bool {
	r := true
	for i := range exp {
		for j := 0; j < i; j++ {
			r = verifAnd(r, exp[i].addr != exp[j].addr)
		}
	}
	return r
}

func verifSame(h map[uint32]byte, exp []verifEntry) {
	verifAssert(len(h) == len(exp), "number of bytes in the image differs from the file")
	for _, e := range exp {
		v, ok := h[e.addr]
		verifAssert(ok, "a data byte of the file is missing at its address")
		verifAssert(v == e.val, "a data byte has the wrong value")
	}
}
