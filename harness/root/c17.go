package calibrationReader

import (
	"github.com/asap2Go/calibrationReader/a2l"
)

// verifPut places n symbolic bytes at address a, except the one with index hole.
func verifPut(cd *CalibrationData, a uint32, n int, hole int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		v := verifU8("hex")
		b = append(b, v)
		if i != hole {
			cd.Hex[a+uint32(i)] = v
		}
	}
	return b
}

// verifAlign is the expected aligned address for a border that is a power of two.
func verifAlign(a uint32, border int) uint32 {
	return (a + uint32(border) - 1) &^ (uint32(border) - 1)
}

func verifIsInt(t int) bool { return t < 6 }

func verifIntOf(t int, raw uint64) int64 {
	switch t {
	case 1:
		return int64(int8(raw))
	case 3:
		return int64(int16(raw))
	case 5:
		return int64(int32(raw))
	}
	return int64(raw)
}

// C17: every component holding one number: value, position behind it, and a missing byte.
//
//verif:run C17,C15,C16,C24 quick cpu=1 lo=0 hi=10 reach=ok,missing
//verif:run C17,C15,C16,C24 quick cpu=1 lo=10 hi=21 reach=ok,missing
func VerifH_component() {
	p := verifParts[verifParam("lo")+verifChoose("part", verifParam("hi")-verifParam("lo"))]
	t := verifChoose("type", len(verifTypes))
	little := verifBool("little")
	cd := verifCD()
	if little {
		verifSetOrder(cd, a2l.MsbLast, true)
	}
	rl := &a2l.RecordLayout{}
	// every other component has another datatype, so that taking the wrong one shows
	for _, q := range verifParts {
		q.set(rl, verifTypes[(t+4)%8], true, 1)
	}
	p.set(rl, verifTypes[t], true, 1)
	w := verifWidth[t]
	border := w
	if verifBool("own") {
		border = 4
		if w == 4 {
			border = 16
		}
		verifLayoutBorder(rl, t, uint16(border), true)
	}
	cur := verifU32("pos")
	verifAssume(cur < 0xffffff00)
	al := verifAlign(cur, border)
	hole := verifChoose("hole", w+1)
	b := verifPut(cd, al, w, hole)
	v, err := p.get(cd, rl, &cur)
	if hole < w {
		verifReach("missing")
		verifAssert(err != nil, "a component with a missing byte is read")
		return
	}
	verifReach("ok")
	verifAssert(err == nil, "a component that is present is rejected")
	verifAssert(cur == al+uint32(w), "the position is not just behind the component")
	if verifIsInt(t) {
		verifAssert(v == verifIntOf(t, verifRaw(b, little)), "the component has another value")
	} else if t < 8 {
		raw := verifRaw(b, little)
		if raw < 1<<53 {
			verifAssert(v == int64(raw), "the component has another value")
		}
	}
}

// C17: the identification bytes and reserved space
//
//verif:run C17 quick cpu=1 reach=ok,missing
func VerifH_identification() {
	t := verifChoose("type", len(verifTypes))
	cd := verifCD()
	rl := &a2l.RecordLayout{}
	rl.Identification.Datatype, rl.Identification.DatatypeSet = verifTypes[t], true
	cur := verifU32("pos")
	verifAssume(cur < 0xffffff00)
	w := verifWidth[t]
	al := verifAlign(cur, w)
	hole := verifChoose("hole", w+1)
	b := verifPut(cd, al, w, hole)
	v, err := cd.getIdentification(rl, &cur)
	if hole < w {
		verifReach("missing")
		verifAssert(err != nil, "a component with a missing byte is read")
		return
	}
	verifReach("ok")
	verifAssert(err == nil, "a component that is present is rejected")
	verifAssert(cur == al+uint32(w), "the position is not just behind the component")
	if g, is := v.([]byte); is {
		verifAssert(len(g) == w, "the identification has another length")
		for i := range g {
			verifAssert(g[i] == b[i], "the identification has another value")
		}
	}
}

//verif:run C17 quick cpu=1 reach=ok
func VerifH_reserved() {
	cd := verifCD()
	rl := &a2l.RecordLayout{}
	k := verifChoose("size", 3)
	rl.Reserved.DataSize, rl.Reserved.DataSizeSet = []a2l.DataSizeEnum{a2l.BYTE, a2l.WORD, a2l.LONG}[k], true
	p := verifU32("pos")
	verifAssume(p < 0xffffff00)
	cur := p
	err := cd.getReserved(rl, &cur)
	verifReach("ok")
	verifAssert(err == nil, "reserved space is rejected")
	verifAssert(cur == p+uint32(1)<<uint(k), "reserved space does not have its size")
}

// C17: axis points are read one behind the other, the count from the layout or from the component read before.
//
//verif:run C17 quick cpu=1 n=3 types=0 holes=1 reach=ok,missing,none
//verif:run C17 quick cpu=1 n=2 types=1 holes=0 reach=ok,missing,none
//verif:run C17 quick cpu=1 n=1 types=2 holes=1 reach=ok,missing,none
//verif:run C17 thorough cpu=1 n=6 types=0 holes=1 reach=ok,missing,none
//verif:run C17 thorough cpu=1 n=3 types=1 holes=1 reach=ok,missing,none
func VerifH_axisPoints() {
	ai := verifChoose("axis", len(verifAxes))
	ax := verifAxes[ai]
	t := 0
	if verifParam("types") == 0 {
		t = verifChoose("type", 4)
	} else if verifParam("types") == 1 {
		t = []int{4, 5, 6, 7, 9, 10}[verifChoose("type", 6)]
	} else {
		t = 8
	}
	little := verifBool("little")
	cd := verifCD()
	if little {
		verifSetOrder(cd, a2l.LittleEndian, true)
	}
	rl := &a2l.RecordLayout{}
	cv := NewCharacteristicValues(&a2l.Characteristic{}, rl)
	// the other axes differ
	for j, q := range verifAxes {
		if j != ai {
			q.set(rl, verifTypes[(t+4)%8], 1)
			q.fix(rl, 7)
			q.count(cv, 7)
		}
	}
	ax.set(rl, verifTypes[t], 1)
	n := verifChoose("count", verifParam("n")+1)
	fixed := verifBool("fixed")
	if fixed {
		ax.fix(rl, uint16(n))
		ax.count(cv, 9)
	} else {
		ax.count(cv, int64(n))
	}
	w := verifWidth[t]
	border := w
	if verifBool("own") {
		border = 2 * w
		verifLayoutBorder(rl, t, uint16(border), true)
	}
	cur := verifU32("pos")
	verifAssume(cur < 0xffffff00)
	start := cur
	hole := -1
	if n > 0 && verifBool("miss") {
		if verifParam("holes") == 1 {
			hole = verifChoose("hole", n*w)
		} else {
			hole = verifChoose("hole", 2) * (n*w - 1)
		}
	}
	var raw []uint64
	at := cur
	for i := 0; i < n; i++ {
		at = verifAlign(at, border)
		raw = append(raw, verifRaw(verifPut(cd, at, w, hole-i*w), little))
		at += uint32(w)
	}
	v, err := ax.get(cv, cd, rl, &cur)
	if hole >= 0 {
		verifReach("missing")
		verifAssert(err != nil, "axis points with a missing byte are read")
		return
	}
	if n == 0 {
		verifReach("none")
		verifAssert(len(v) == 0, "axis points out of nowhere")
		verifAssert(cur == start, "the position moves without axis points")
		return
	}
	verifReach("ok")
	verifAssert(err == nil, "axis points that are present are rejected")
	verifAssert(len(v) == n, "another number of axis points")
	verifAssert(cur == at, "the position is not just behind the axis points")
	for i := range v {
		verifDecoded(t, raw[i], v[i])
	}
}

// C17: a value
//
//verif:run C17 quick cpu=1 reach=ok,missing
func VerifH_fncValue() {
	t := verifChoose("type", len(verifTypes))
	little := verifBool("little")
	cd := verifCD()
	if little {
		verifSetOrder(cd, a2l.LittleEndian, true)
	}
	rl := &a2l.RecordLayout{}
	rl.FncValues.Datatype, rl.FncValues.DatatypeSet = verifTypes[t], true
	for _, q := range verifAxes {
		q.set(rl, verifTypes[(t+4)%8], 1)
	}
	cv := NewCharacteristicValues(&a2l.Characteristic{}, rl)
	cur := verifU32("pos")
	verifAssume(cur < 0xffffff00)
	w := verifWidth[t]
	al := verifAlign(cur, w)
	hole := verifChoose("hole", w+1)
	b := verifPut(cd, al, w, hole)
	v, _, err := cv.getFncValues1D(cd, rl, &cur)
	if hole < w {
		verifReach("missing")
		verifAssert(err != nil, "a value with a missing byte is read")
		return
	}
	verifReach("ok")
	verifAssert(err == nil, "a value that is present is rejected")
	verifAssert(cur == al+uint32(w), "the position is not just behind the value")
	verifDecoded(t, verifRaw(b, little), v)
}
