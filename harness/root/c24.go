package calibrationReader

import (
	"github.com/asap2Go/calibrationReader/a2l"
)

// C24: the record layout of a characteristic is the one its deposit names in the selected module.
//
//verif:run C24 quick cpu=1 mods=2 reach=found,none
//verif:run C24 thorough cpu=1 mods=4 reach=found,none
func VerifH_deposit() {
	n := verifParam("mods")
	cd := &CalibrationData{}
	cd.A2l.Project.Modules = make([]a2l.Module, n)
	sel := verifChoose("module", n)
	cd.ModuleIndex = uint8(sel)
	r1, r2, d := verifIdent("r1"), verifIdent("r2"), verifTok("deposit")
	verifAssume(r1 != r2)
	mk := func(pos uint16) a2l.RecordLayout {
		rl := a2l.RecordLayout{}
		rl.NoAxisPtsX.Position, rl.NoAxisPtsX.PositionSet = pos, true
		return rl
	}
	for i := range cd.A2l.Project.Modules {
		cd.A2l.Project.Modules[i].RecordLayouts = map[string]a2l.RecordLayout{d: mk(9)}
	}
	cd.A2l.Project.Modules[sel].RecordLayouts = map[string]a2l.RecordLayout{r1: mk(1), r2: mk(2)}
	ch := &a2l.Characteristic{Name: r2, Deposit: d, DepositSet: verifBool("set")}
	rl, err := cd.getRecordLayout(ch)
	want := uint16(0)
	if ch.DepositSet && d == r1 {
		want = 1
	} else if ch.DepositSet && d == r2 {
		want = 2
	}
	if want == 0 {
		verifAssert(err != nil, "a record layout is found for a deposit that names none")
		verifReach("none")
		return
	}
	verifAssert(err == nil && rl != nil, "the record layout a deposit names is not found")
	verifAssert(rl.NoAxisPtsX.Position == want, "another record layout is found")
	verifReach("found")
}

// C24: a characteristic whose layout, positions or address are unusable has no values.
//
//verif:run C24 quick cpu=1 reach=tried
func VerifH_noValues() {
	cd := verifCD()
	m := &cd.A2l.Project.Modules[0]
	rl := a2l.RecordLayout{}
	p := verifParts[verifChoose("part", len(verifParts))]
	p.set(&rl, a2l.UBYTE, true, 1)
	ch := &a2l.Characteristic{Name: "c", Address: "0x0", Deposit: "rl", DepositSet: true}
	for a := uint32(0); a < 8; a++ {
		cd.Hex[a] = 7
	}
	switch verifChoose("fault", 3) {
	case 0:
		ch.Deposit = verifIdent("other")
		verifAssume(ch.Deposit != "rl")
	case 1:
		ch.Address = []string{"", "0xZ", "x", "0x100000000", "-1"}[verifChoose("address", 5)]
	case 2:
		rl.FncValues.Position, rl.FncValues.PositionSet, rl.FncValues.Datatype, rl.FncValues.DatatypeSet = 1, true, a2l.UBYTE, true
	}
	m.RecordLayouts = map[string]a2l.RecordLayout{"rl": rl}
	cv := NewCharacteristicValues(ch, &rl)
	getValuesFromHex(cv, cd)
	verifAssert(p.val(cv) == 0, "a value of a characteristic that cannot be located")
	verifReach("tried")
}

// C24: from the text of both files to the values of two characteristics.
//
//verif:run C24 quick cpu=1 points=2 reach=read
//verif:run C24 quick cpu=2 points=1 reach=read
//verif:run C24 thorough cpu=1 points=4 reach=read
func VerifH_endToEnd() {
	big := verifBool("big")
	order, border := "MSB_LAST", "4"
	if big {
		order = "MSB_FIRST"
	}
	al := 4
	if verifBool("border") {
		border, al = "8", 8
	}
	own := verifBool("own")
	layout := ""
	if own {
		layout, al = " ALIGNMENT_LONG 2", 2
	}
	// the second component has the higher position, wherever it is declared
	first, second := "NO_AXIS_PTS_X 3 UBYTE", " OFFSET_X 12 SLONG"
	if verifBool("swap") {
		first, second = second, " "+first
	}
	at := []string{"0x1000", "0x1001", "0x1003", "0x1007"}[verifChoose("at", 4)]
	a := map[string]uint32{"0x1000": 0x1000, "0x1001": 0x1001, "0x1003": 0x1003, "0x1007": 0x1007}[at]
	k := 1 + verifChoose("points", verifParam("points"))
	text := "ASAP2_VERSION 1 71 /begin PROJECT p \"\" /begin MODULE m \"\"\n" +
		"/begin MOD_COMMON \"\" BYTE_ORDER " + order + " ALIGNMENT_LONG " + border + " /end MOD_COMMON\n" +
		"/begin CHARACTERISTIC c1 \"\" CURVE " + at + " rl1 0 cm 0 1 /end CHARACTERISTIC\n" +
		"/begin CHARACTERISTIC c2 \"\" VALUE 0x1040 rl2 0 cm 0 1 /end CHARACTERISTIC\n" +
		"/begin RECORD_LAYOUT rl2 SHIFT_OP_X 1 UWORD /end RECORD_LAYOUT\n" +
		"/begin RECORD_LAYOUT rl1 " + first + " AXIS_PTS_X 5 SWORD INDEX_INCR DIRECT" + second + layout + " /end RECORD_LAYOUT\n" +
		"/begin COMPU_METHOD cm \"\" IDENTICAL \"%3\" \"u\" /end COMPU_METHOD /end MODULE /end PROJECT\n"
	// the hex image: 0x1000..0x101F and two bytes at 0x1040
	img := make([]byte, 32)
	for i := range img {
		img[i] = byte(0xA0 + i)
	}
	img[a-0x1000] = byte(k)
	p := verifAlign(a+1, 2)
	var pts []uint64
	for i := 0; i < k; i++ {
		x, y := verifU8("point"), verifU8("point")
		img[p-0x1000], img[p-0xfff] = x, y
		pts = append(pts, verifRaw([]byte{x, y}, !big))
		p += 2
	}
	p = verifAlign(p, al)
	off := []byte{verifU8("off"), verifU8("off"), verifU8("off"), verifU8("off")}
	copy(img[p-0x1000:], off)
	s0, s1 := verifU8("shift"), verifU8("shift")
	var h []byte
	rec := func(addr uint16, b []byte) {
		sum := uint8(len(b)) + uint8(addr>>8) + uint8(addr)
		h = append(h, ':')
		h = verifHexByte(h, uint8(len(b)))
		h = verifHexByte(h, uint8(addr>>8))
		h = verifHexByte(h, uint8(addr))
		h = append(h, "00"...)
		for _, x := range b {
			h = verifHexByte(h, x)
			sum += x
		}
		h = verifHexByte(h, -sum)
		h = append(h, '\n')
	}
	rec(0x1040, []byte{s0, s1})
	rec(0x1000, img)
	cd, err := ReadCalibration(verifFile("e.a2l", text), verifFile("e.hex", string(h)+":00000001FF\n"))
	verifAssert(err == nil, "two valid files are refused")
	m := &cd.A2l.Project.Modules[0]
	c1, c2 := m.Characteristics["c1"], m.Characteristics["c2"]
	v1, v2 := NewCharacteristicValues(&c1, nil), NewCharacteristicValues(&c2, nil)
	getValuesFromHex(v1, &cd)
	getValuesFromHex(v2, &cd)
	verifAssert(v1.noAxisPtsXValue == int64(k), "the number of axis points is another one")
	verifAssert(len(v1.AxisXValues) == k, "another number of axis points")
	for i := range v1.AxisXValues {
		verifDecoded(3, pts[i], v1.AxisXValues[i])
	}
	verifAssert(v1.offsetXValue == verifIntOf(5, verifRaw(off, !big)), "a component has another value")
	verifAssert(v1.shiftOpXValue == 0, "a component of another characteristic")
	verifAssert(v2.shiftOpXValue == verifIntOf(2, verifRaw([]byte{s0, s1}, !big)), "a value of the second characteristic differs")
	verifAssert(v2.noAxisPtsXValue == 0 && len(v2.AxisXValues) == 0 && v2.offsetXValue == 0, "a component of another characteristic")
	verifReach("read")
}

// C24: the value lies at the address, wherever in the address space that is and however it is written.
//
//verif:run C24 quick cpu=1 reach=read
func VerifH_addressValue() {
	cd := verifCD()
	texts := []string{"0x0", "0X00000000", "0x00", "0x10", "0X1f", "0xabcDEF", "0x000ABC", "0x7FFFFFFF", "0x80000000", "0xDEADBEEF", "0xfffffffe", "0XFFFFFFFF", "0x0F0F0F0F", "0x10000000"}
	addrs := []uint32{0, 0, 0, 0x10, 0x1f, 0xabcdef, 0xabc, 0x7fffffff, 0x80000000, 0xdeadbeef, 0xfffffffe, 0xffffffff, 0x0f0f0f0f, 0x10000000}
	k := verifChoose("address", len(texts))
	x := verifU8("value")
	for i, a := range addrs {
		cd.Hex[a] = byte(i)
	}
	cd.Hex[addrs[k]] = x
	rl := a2l.RecordLayout{Name: "rl", NameSet: true}
	p := verifParts[verifChoose("part", len(verifParts))]
	p.set(&rl, a2l.UBYTE, true, 1)
	cd.A2l.Project.Modules[0].RecordLayouts = map[string]a2l.RecordLayout{"rl": rl}
	ch := &a2l.Characteristic{Name: "c", Address: texts[k], Deposit: "rl", DepositSet: true}
	cv := NewCharacteristicValues(ch, nil)
	getValuesFromHex(cv, cd)
	verifReach("read")
	verifAssert(p.val(cv) == int64(x), "the value at the address of the characteristic is not read")
}
