package calibrationReader

import (
	"github.com/asap2Go/calibrationReader/a2l"
	"github.com/asap2Go/calibrationReader/ihex32"
	"github.com/asap2Go/calibrationReader/srec19"
)

const verifDigits = "0123456789ABCDEF"

func verifHexByte(b []byte, v uint8) []byte {
	return append(b, verifDigits[v>>4], verifDigits[v&15])
}

// verifHexText is an Intel-HEX or S-record file with two data bytes; e is added to the checksum.
func verifHexText(s19 bool, addr uint16, v0, v1, e uint8) string {
	var b []byte
	sum := uint8(addr>>8) + uint8(addr) + v0 + v1
	if s19 {
		b = append(b, "S307"...)
		b = verifHexByte(b, 0)
		b = verifHexByte(b, 0)
		sum = ^(sum + 7)
	} else {
		b = append(b, ":02"...)
		sum = -(sum + 2)
	}
	b = verifHexByte(b, uint8(addr>>8))
	b = verifHexByte(b, uint8(addr))
	if !s19 {
		b = append(b, "00"...)
	}
	b = verifHexByte(b, v0)
	b = verifHexByte(b, v1)
	b = verifHexByte(b, sum+e)
	if s19 {
		return string(b) + "\nS70500000000FA\n"
	}
	return string(b) + "\n:00000001FF\n"
}

// verifA2lText is a file with one object of some kinds and a name of the solver's choice.
func verifA2lText(name string, min, end string) string {
	return "ASAP2_VERSION 1 71\n/begin PROJECT p \"\"\n/begin MODULE m \"\"\n" +
		"/begin CHARACTERISTIC c1 \"a text\" VALUE 0x1000 rl 0 cm -10 10\n FORMAT \"%4.2\"\n/end CHARACTERISTIC\n" +
		"/begin MEASUREMENT " + name + " \"other text\" UWORD NO_COMPU_METHOD " + min + " 0 0 65535 /end MEASUREMENT\n" +
		"/begin RECORD_LAYOUT rl FNC_VALUES 1 UWORD COLUMN_DIR DIRECT /end RECORD_LAYOUT\n" +
		"/begin COMPU_METHOD cm \"\" IDENTICAL \"%3\" \"u\" /end COMPU_METHOD\n" +
		"/end MODULE" + end
}

// verifLetters is a name of two letters.
func verifLetters() string {
	s := verifBytes("name", 2)
	for i := 0; i < 2; i++ {
		verifAssume(s[i] >= 'a')
		verifAssume(s[i] <= 'z')
	}
	return s
}

func verifCheckHex(h map[uint32]byte, addr uint16, v0, v1 uint8) {
	verifAssert(len(h) == 2, "a byte of the hex file is missing or there is one too many")
	a := uint32(addr)
	x, ok := h[a]
	y, ok2 := h[a+1]
	verifAssert(ok && ok2, "a byte of the hex file is missing")
	verifAssert(x == v0 && y == v1, "a byte of the hex file has another value")
}

// C13: every combination of success and failure of the two files.
//
//verif:run C13 quick cpu=1 ext=1 reach=both,error
//verif:run C13 quick cpu=2 ext=1 reach=both,error
//verif:run C13 quick cpu=1 ext=8 reach=both,error
//verif:run C13 quick cpu=1 ext=1 delays=1 race=1 maporder=1 reach=both,error
//verif:run C13 thorough cpu=4 ext=1 reach=both,error
//verif:run C13 thorough cpu=1 ext=1 delays=2 race=1 paths=200000 timeout=3000 reach=both,error
func VerifH_both() {
	name := verifLetters()
	am, hm := verifChoose("a2l", 4), verifChoose("hex", 3)
	aPath := "cal.a2l"
	switch am {
	case 0:
		aPath = verifFile(aPath, verifA2lText(name, "1", "\n/end PROJECT\n"))
	case 1:
		aPath = verifFile(aPath, verifA2lText(name, "x", "\n/end PROJECT\n"))
	case 2:
		aPath = verifFile(aPath, verifA2lText(name, "1", "\n"))
	case 3:
		aPath = "missing.a2l"
	}
	s19 := verifBool("s19")
	hPath := []string{"cal.hex", "cal.HEX", "cal.Hex", "cal.hEX", "cal.heX", "cal.HeX", "cal.HEx", "cal.hEx"}[verifChoose("case", verifParam("ext"))]
	if s19 {
		hPath = "dir.hex/cal.s19"
		if verifParam("ext") > 1 && verifBool("upper") {
			hPath = "cal.hex.S19"
		}
	}
	addr, v0, v1 := verifU16("addr"), verifU8("byte"), verifU8("byte")
	verifAssume(addr < 0xffff)
	switch hm {
	case 0:
		hPath = verifFile(hPath, verifHexText(s19, addr, v0, v1, 0))
	case 1:
		e := verifU8("sumerr")
		verifAssume(e != 0)
		hPath = verifFile(hPath, verifHexText(s19, addr, v0, v1, e))
	}
	cd, err := ReadCalibration(aPath, hPath)
	if am != 0 || hm != 0 {
		verifAssert(err != nil, "one file cannot be read and there is no error")
		verifReach("error")
		return
	}
	verifAssert(err == nil, "two valid files are refused")
	verifCheckHex(cd.Hex, addr, v0, v1)
	a, err := a2l.ParseFromFile(aPath)
	verifAssert(err == nil, "a valid A2L file is refused")
	verifAssert(a2l.VerifSame(cd.A2l, a), "the A2L part differs from reading the file alone")
	mo := &cd.A2l.Project.Modules[0]
	verifAssert(len(mo.Measurements) == 1 && len(mo.Characteristics) == 1 && len(mo.RecordLayouts) == 1 && len(mo.CompuMethods) == 1,
		"an object of the A2L file is missing")
	_, ok := mo.Measurements[name]
	verifAssert(ok, "an object of the A2L file is missing")
	verifAssert(mo.Characteristics["c1"].Address == "0x1000", "a value of the A2L file differs")
	verifAssert(cd.ModuleIndex == 0, "another module is selected")
	var h map[uint32]byte
	if s19 {
		h, err = srec19.ParseFromFile(hPath)
	} else {
		h, err = ihex32.ParseFromFile(hPath)
	}
	verifAssert(err == nil, "a valid hex file is refused")
	verifCheckHex(h, addr, v0, v1)
	verifReach("both")
}

// C13: any other extension is an error, whatever the file holds.
//
//verif:run C13 quick cpu=1 len=1 reach=tried
//verif:run C13 quick cpu=1 len=3 reach=tried
//verif:run C13 quick cpu=1 len=4 reach=tried
//verif:run C13 thorough cpu=1 len=5 reach=tried
func VerifH_otherext() {
	n := verifParam("len")
	ext := verifBytes("ext", n)
	dots := 0
	for i := 0; i < n; i++ {
		c := ext[i]
		verifAssume(c > ' ')
		verifAssume(c < 0x7f)
		verifAssume(c != '/')
		if c == '.' {
			dots++
		}
	}
	hex, s19 := false, false
	if n >= 3 {
		if n == 3 || ext[n-4] == '.' {
			c0, c1, c2 := ext[n-3], ext[n-2], ext[n-1]
			hex = verifAnd(verifAnd(verifOr(c0 == 'h', c0 == 'H'), verifOr(c1 == 'e', c1 == 'E')), verifOr(c2 == 'x', c2 == 'X'))
			s19 = verifAnd(verifAnd(verifOr(c0 == 's', c0 == 'S'), c1 == '1'), c2 == '9')
		}
	}
	verifAssume(!hex)
	verifAssume(!s19)
	aPath := verifFile("cal.a2l", verifA2lText("mm", "1", "\n/end PROJECT\n"))
	hPath := verifFile("cal."+ext, verifHexText(verifBool("s19"), 16, 1, 2, 0))
	_, err := ReadCalibration(aPath, hPath)
	verifAssert(err != nil, "a hex file with another extension is accepted")
	verifReach("tried")
}

// C13: an extension in any letter case selects the reader: a file of the other format is an error.
//
//verif:run C13 quick cpu=1 reach=hex,s19,wrong
func VerifH_dispatch() {
	ext := verifBytes("ext", 3)
	s19 := verifBool("s19")
	for i, c := range []byte("hex") {
		if s19 {
			c = "s19"[i]
		}
		if c >= 'a' {
			verifAssume(verifOr(ext[i] == c, ext[i] == c-32))
		} else {
			verifAssume(ext[i] == c)
		}
	}
	content := verifBool("content")
	v0, v1 := verifU8("byte"), verifU8("byte")
	aPath := verifFile("cal.a2l", verifA2lText("mm", "1", "\n/end PROJECT\n"))
	hPath := verifFile("cal."+ext, verifHexText(content, 0x1234, v0, v1, 0))
	cd, err := ReadCalibration(aPath, hPath)
	if content != s19 {
		verifAssert(err != nil, "a file of the other hex format is accepted")
		verifReach("wrong")
		return
	}
	verifAssert(err == nil, "two valid files are refused")
	verifCheckHex(cd.Hex, 0x1234, v0, v1)
	if s19 {
		verifReach("s19")
	} else {
		verifReach("hex")
	}
}

// C13: the log file cannot be written.
//
//verif:run C13 quick cpu=1 reach=tried
func VerifH_nolog() {
	aPath := verifFile("cal.a2l", verifA2lText("mm", "1", "\n/end PROJECT\n"))
	hPath := verifFile("cal.hex", verifHexText(false, 16, 1, 2, 0))
	verifCreateFails()
	cd, err := ReadCalibration(aPath, hPath)
	if err == nil {
		verifCheckHex(cd.Hex, 16, 1, 2)
		verifAssert(len(cd.A2l.Project.Modules) == 1, "the A2L part is missing")
	}
	verifReach("tried")
}
