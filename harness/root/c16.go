package calibrationReader

import (
	"math"

	"github.com/asap2Go/calibrationReader/a2l"
)

// verifHalf is the value of an IEEE half as float32 bits (not a NaN).
func verifHalf(h uint64) uint32 {
	s := uint32(h>>15) & 1
	e := uint32(h>>10) & 31
	m := uint32(h) & 0x3ff
	if e == 31 {
		return s<<31 | 0xff<<23
	}
	if e != 0 {
		return s<<31 | (e+112)<<23 | m<<13
	}
	// subnormal: m * 2^-24
	for k := uint32(0); k < 10; k++ {
		if m>>(9-k) != 0 {
			return s<<31 | (112-k)<<23 | (m<<(14+k))&0x7fffff
		}
	}
	return s << 31
}

func verifOrder(cd *CalibrationData, little bool) {
	if little {
		if verifChoose("order", 2) == 0 {
			verifSetOrder(cd, a2l.LittleEndian, true)
		} else {
			verifSetOrder(cd, a2l.MsbLast, true)
		}
		return
	}
	switch verifChoose("order", 3) {
	case 0:
		verifSetOrder(cd, a2l.BigEndian, true)
	case 1:
		verifSetOrder(cd, a2l.MsbFirst, true)
	}
}

// verifDecoded asserts that v is the number encoded by raw in datatype t.
func verifDecoded(t int, raw uint64, v float64) {
	const msg = "the bytes convert to another number"
	switch t {
	case 0, 2, 4, 6:
		verifAssert(v == float64(raw), msg)
	case 1:
		verifAssert(v == float64(int8(raw)), msg)
	case 3:
		verifAssert(v == float64(int16(raw)), msg)
	case 5:
		verifAssert(v == float64(int32(raw)), msg)
	case 7:
		verifAssert(v == float64(int64(raw)), msg)
	case 8:
		if raw&0x7c00 == 0x7c00 && raw&0x3ff != 0 {
			verifAssert(v != v, msg)
			return
		}
		verifAssert(v == float64(math.Float32frombits(verifHalf(raw))), msg)
	case 9:
		f := math.Float32frombits(uint32(raw))
		verifAssert(v == float64(f) || (f != f && v != v), msg)
	case 10:
		f := math.Float64frombits(raw)
		verifAssert(v == f || (f != f && v != v), msg)
	}
}

// C16: every datatype, byte order and byte value; the slice may be longer than needed.
//
//verif:run C16,C24 quick cpu=1 extra=2 reach=converted
func VerifH_bytesToNumber() {
	t := verifChoose("type", len(verifTypes))
	little := verifBool("little")
	cd := verifCD()
	verifOrder(cd, little)
	n := verifWidth[t]
	x := verifChoose("extra", verifParam("extra"))
	b := []byte(verifBytes("bytes", n+x))
	v, err := cd.convertByteSliceToDatatype(b, verifTypes[t])
	verifReach("converted")
	verifAssert(err == nil, "valid bytes are rejected")
	verifDecoded(t, verifRaw(b[:n], little), v)
}

// C16: too few bytes
//
//verif:run C16 quick cpu=1 reach=short
func VerifH_bytesTooFew() {
	t := verifChoose("type", len(verifTypes))
	cd := verifCD()
	verifOrder(cd, verifBool("little"))
	n := verifChoose("len", verifWidth[t])
	b := []byte(verifBytes("bytes", n))
	_, err := cd.convertByteSliceToDatatype(b, verifTypes[t])
	verifReach("short")
	verifAssert(err != nil, "too few bytes convert to a number")
}

// C16: a byte order that is not supported
//
//verif:run C16,C24 quick cpu=1 reach=converted
func VerifH_bytesOrder() {
	t := verifChoose("type", len(verifTypes))
	cd := verifCD()
	if verifBool("first") {
		verifSetOrder(cd, a2l.MsbFirstMswLast, true)
	} else {
		verifSetOrder(cd, a2l.MsbLastMswFirst, true)
	}
	b := []byte(verifBytes("bytes", 8))
	_, err := cd.convertByteSliceToDatatype(b, verifTypes[t])
	verifReach("converted")
	verifAssert(err != nil, "an unsupported byte order gives a number")
}

// C16: an unknown datatype
//
//verif:run C16 quick cpu=1 reach=converted
func VerifH_bytesType() {
	cd := verifCD()
	verifOrder(cd, verifBool("little"))
	b := []byte(verifBytes("bytes", 8))
	_, err := cd.convertByteSliceToDatatype(b, a2l.DataTypeEnum(verifIdent("type")))
	verifReach("converted")
	verifAssert(err != nil, "an unknown datatype gives a number")
}

// C16: the byte order of the selected module counts
//
//verif:run C16,C24 quick cpu=1 reach=converted
func VerifH_bytesModule() {
	cd := verifCD()
	cd.A2l.Project.Modules = make([]a2l.Module, 2)
	i := verifChoose("module", 2)
	cd.ModuleIndex = 0
	verifSetOrder(cd, a2l.MsbLast, true)
	cd.ModuleIndex = 1
	verifSetOrder(cd, a2l.MsbFirst, true)
	cd.ModuleIndex = uint8(i)
	t := 2 + verifChoose("type", len(verifTypes)-2)
	b := []byte(verifBytes("bytes", verifWidth[t]))
	v, err := cd.convertByteSliceToDatatype(b, verifTypes[t])
	verifReach("converted")
	verifAssert(err == nil, "valid bytes are rejected")
	verifDecoded(t, verifRaw(b, i == 0), v)
}

// C16: addresses in hexadecimal notation
//
//verif:run C16,C24 quick cpu=1 digits=8 reach=converted
func VerifH_addressNotation() {
	n := 1 + verifChoose("digits", verifParam("digits"))
	const low, up = "0123456789abcdef", "0123456789ABCDEF"
	var want uint32
	text := []byte("0x")
	if verifBool("X") {
		text = []byte("0X")
	}
	for i := 0; i < n; i++ {
		d := verifU8("nibble")
		verifAssume(d < 16)
		c := d + '0'
		if d >= 10 {
			c = d - 10 + 'a'
			if i%2 == 0 {
				c = d - 10 + 'A'
			}
		}
		text = append(text, c)
		want = want<<4 | uint32(d)
	}
	cd := verifCD()
	if verifBool("little") {
		verifSetOrder(cd, a2l.MsbLast, true)
	}
	v, err := cd.convertStringToUint32Address(string(text))
	verifReach("converted")
	verifAssert(err == nil, "a valid address is rejected")
	verifAssert(v == want, "the address is another one")
}

// C16: something that is not an address
//
//verif:run C16,C24 quick cpu=1 reach=converted
func VerifH_addressBad() {
	cd := verifCD()
	b := []byte("1a2F")
	k := verifChoose("bad", 4)
	c := verifU8("char")
	verifAssume(!(c >= '0' && c <= '9'))
	verifAssume(!(c >= 'a' && c <= 'f'))
	verifAssume(!(c >= 'A' && c <= 'F'))
	verifAssume(c < 0x80)
	b[k] = c
	_, err := cd.convertStringToUint32Address("0x" + string(b))
	verifReach("converted")
	verifAssert(err != nil, "an invalid address gives a number")
}

// C16: more than 32 bits
//
//verif:run C16,C24 quick cpu=1 reach=converted
func VerifH_addressBig() {
	cd := verifCD()
	d := verifU8("nibble")
	verifAssume(d >= 1)
	verifAssume(d <= 9)
	_, err := cd.convertStringToUint32Address("0x" + string([]byte{d + '0'}) + "00000000")
	verifReach("converted")
	verifAssert(err != nil, "an address of more than 32 bits gives a number")
}
