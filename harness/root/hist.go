package calibrationReader

import (
	"github.com/asap2Go/calibrationReader/a2l"
)

// What was asked before, of the same or of other calibration data, and with another module selected,
// has no influence on an answer.

func verifTwo() [2]*CalibrationData {
	var l [2]*CalibrationData
	for i := range l {
		l[i] = &CalibrationData{Hex: map[uint32]byte{}}
		l[i].A2l.Project.Modules = make([]a2l.Module, 2)
	}
	return l
}

// verifEach calls f n times with any of the four pairs of data and module.
func verifEach(l [2]*CalibrationData, n int, f func(cd *CalibrationData, k int)) {
	for i := 0; i < n; i++ {
		k := verifChoose("which", 4)
		cd := l[k/2]
		cd.ModuleIndex = uint8(k % 2)
		f(cd, k)
	}
}

// C14: names looked up one after the other.
//
//verif:run C14 quick cpu=1 n=2 reach=found
//verif:run C14 thorough cpu=1 n=3 reach=found
func VerifH_lookupAgain() {
	l := verifTwo()
	id := verifIdent("id")
	ki := verifChoose("kind", len(a2l.VerifKinds))
	k1 := a2l.VerifKinds[ki]
	tags := []string{"t0", "t1", "t2", "t3"}
	var there [4]bool
	for i := range tags {
		there[i] = i == 0 || verifBool("there")
		if there[i] {
			a2l.VerifAdd(&l[i/2].A2l.Project.Modules[i%2], k1, id, tags[i])
		}
	}
	verifEach(l, verifParam("n"), func(cd *CalibrationData, k int) {
		got := cd.GetObjectByIdent(id)
		if !there[k] {
			verifAssert(len(got) == 0, "an object of another module or other data is returned")
			return
		}
		verifReach("found")
		verifAssert(len(got) == 1, "an object is missing or doubled")
		kind, name := a2l.VerifObject(got[0])
		verifAssert(kind == k1 && name == tags[k], "another object is returned")
	})
}

// C14: system constants asked for one after the other.
//
//verif:run C14 quick cpu=1 n=2 reach=found
func VerifH_systemConstantAgain() {
	l := verifTwo()
	id := verifIdent("id")
	tags := []string{"t0", "t1", "t2", "t3"}
	var there [4]bool
	for i := range tags {
		there[i] = i == 0 || verifBool("there")
		if there[i] {
			l[i/2].A2l.Project.Modules[i%2].ModPar.SystemConstants = map[string]a2l.SystemConstant{
				id: {Name: id, NameSet: true, Value: tags[i], ValueSet: true}}
		}
	}
	verifEach(l, verifParam("n"), func(cd *CalibrationData, k int) {
		v, err := cd.getSystemConstantValue(id)
		if !there[k] {
			verifAssert(err != nil, "a system constant of another module or other data is returned")
			return
		}
		verifReach("found")
		verifAssert(err == nil && v == tags[k], "a system constant has another value")
	})
}

// C15: borders of module and record layout used one after the other.
//
//verif:run C15 quick cpu=1 n=2 reach=aligned
//verif:run C15 thorough cpu=1 n=3 reach=aligned
func VerifH_alignAgain() {
	l := verifTwo()
	t := verifChoose("type", len(verifTypes))
	for i := 0; i < 4; i++ {
		l[i/2].ModuleIndex = uint8(i % 2)
		verifModuleBorder(l[i/2], t, uint16(16)<<uint(i), true)
	}
	own := &a2l.RecordLayout{Name: "rl", NameSet: true}
	verifLayoutBorder(own, t, 2, true)
	none := &a2l.RecordLayout{Name: "rl", NameSet: true}
	verifEach(l, verifParam("n"), func(cd *CalibrationData, k int) {
		rl, border := none, uint32(16)<<uint(k)
		if verifBool("own") {
			rl, border = own, 2
		}
		a := verifU32("addr")
		verifAssume(a <= 0xffffffff-border)
		r := cd.getNextAlignedAddress(a, verifTypes[t], rl)
		verifReach("aligned")
		verifAssert(r == (a+border-1)&^(border-1), "the address is not the next multiple of the border")
	})
}

// C16: bytes decoded one after the other.
//
//verif:run C16 quick cpu=1 n=2 reach=converted
func VerifH_bytesAgain() {
	l := verifTwo()
	// three are little, one is big
	big := verifChoose("big", 4)
	for i := 0; i < 4; i++ {
		l[i/2].ModuleIndex = uint8(i % 2)
		if i == big {
			verifSetOrder(l[i/2], a2l.MsbFirst, true)
		} else {
			verifSetOrder(l[i/2], a2l.MsbLast, true)
		}
	}
	verifEach(l, verifParam("n"), func(cd *CalibrationData, k int) {
		t := 2 + verifChoose("type", 4)
		b := []byte(verifBytes("bytes", verifWidth[t]))
		v, err := cd.convertByteSliceToDatatype(b, verifTypes[t])
		verifReach("converted")
		verifAssert(err == nil, "valid bytes are rejected")
		verifDecoded(t, verifRaw(b, k != big), v)
	})
}

// C16: addresses decoded one after the other.
//
//verif:run C16 quick cpu=1 n=2 reach=converted
func VerifH_addressAgain() {
	l := verifTwo()
	verifEach(l, verifParam("n"), func(cd *CalibrationData, k int) {
		x, y := verifU8("x"), verifU8("y")
		var b []byte
		b = verifHexByte(b, x)
		b = verifHexByte(b, y)
		v, err := cd.convertStringToUint32Address("0x" + string(b))
		verifReach("converted")
		verifAssert(err == nil, "a valid address is rejected")
		verifAssert(v == uint32(x)<<8|uint32(y), "the address is another one")
	})
}

// C17: components read one after the other from the same place of other data.
//
//verif:run C17 quick cpu=1 n=2 reach=ok
func VerifH_componentAgain() {
	l := verifTwo()
	p := verifParts[verifChoose("part", len(verifParts))]
	bytes := [2][]byte{verifPut(l[0], 0x100, 4, -1), verifPut(l[1], 0x100, 4, -1)}
	rl := &a2l.RecordLayout{Name: "rl", NameSet: true}
	p.set(rl, a2l.ULONG, true, 1)
	verifEach(l, verifParam("n"), func(cd *CalibrationData, k int) {
		cur := uint32(0x100)
		if verifBool("second") {
			cur = 0xfd
		}
		v, err := p.get(cd, rl, &cur)
		verifReach("ok")
		verifAssert(err == nil, "a component that is present is rejected")
		verifAssert(cur == 0x104, "the position is not just behind the component")
		verifAssert(v == verifIntOf(4, verifRaw(bytes[k/2], false)), "the component has another value")
	})
}

// C17: axis points read one after the other, with other numbers of points.
//
//verif:run C17 quick cpu=1 n=2 reach=ok
func VerifH_axisPointsAgain() {
	l := verifTwo()
	ax := verifAxes[verifChoose("axis", len(verifAxes))]
	bytes := [2][]byte{verifPut(l[0], 0x100, 6, -1), verifPut(l[1], 0x100, 6, -1)}
	rl := &a2l.RecordLayout{Name: "rl", NameSet: true}
	ax.set(rl, a2l.UWORD, 1)
	ch := &a2l.Characteristic{Name: "c"}
	cv := NewCharacteristicValues(ch, rl)
	verifEach(l, verifParam("n"), func(cd *CalibrationData, k int) {
		if verifBool("new") {
			cv = NewCharacteristicValues(ch, rl)
		}
		c := 1 + verifChoose("count", 3)
		ax.count(cv, int64(c))
		cur := uint32(0x100)
		v, err := ax.get(cv, cd, rl, &cur)
		verifReach("ok")
		verifAssert(err == nil, "axis points that are present are rejected")
		verifAssert(len(v) == c, "another number of axis points")
		verifAssert(cur == 0x100+uint32(2*c), "the position is not just behind the axis points")
		for i := range v {
			verifDecoded(2, verifRaw(bytes[k/2][2*i:2*i+2], false), v[i])
		}
	})
}

// C18: tables of one name used one after the other.
//
//verif:run C18 quick cpu=1 n=2 reach=converted
//verif:run C18 thorough cpu=1 n=3 reach=converted
func VerifH_convAgain() {
	l := verifTwo()
	dec := verifF64("dec")
	verifAssume(dec == dec)
	verbs := []string{"t0", "t1", "t2", "t3"}
	var there [4]bool
	for i := 0; i < 4; i++ {
		there[i] = i == 0 || verifBool("there")
		if !there[i] {
			continue
		}
		m := &l[i/2].A2l.Project.Modules[i%2]
		m.CompuTabs = map[string]a2l.CompuTab{"t": {Name: "t", NameSet: true, NumberValuePairs: 1, NumberValuePairsSet: true,
			InVal: []float64{dec}, InValSet: true, OutVal: []float64{float64(i)}, OutValSet: true}}
		m.CompuVTabs = map[string]a2l.CompuVTab{"t": {Name: "t", NameSet: true, NumberValuePairs: 1, NumberValuePairsSet: true,
			InVal: []float64{dec}, InValSet: true, OutVal: []string{verbs[i]}, OutValSet: true}}
		m.CompuVTabRanges = map[string]a2l.CompuVTabRange{"t": {Name: "t", NameSet: true, NumberValueTriples: 1, NumberValueTriplesSet: true,
			InValMin: []float64{dec}, InValMinSet: true, InValMax: []float64{dec}, InValMaxSet: true, OutVal: []string{verbs[i]}, OutValSet: true}}
	}
	cm := &a2l.CompuMethod{Name: "cm", NameSet: true, ConversionType: a2l.TabNointp, ConversionTypeSet: true}
	cm.CompuTabRef = a2l.CompuTabRef{ConversionTable: "t", ConversionTableSet: true}
	kind := verifChoose("kind", 3)
	verifEach(l, verifParam("n"), func(cd *CalibrationData, k int) {
		ok := false
		var err error
		switch kind {
		case 0:
			var v float64
			v, err = convDecToPhy(dec, cm, cd)
			ok = v == float64(k)
		case 1:
			var s string
			s, err = calcTabVerb(dec, &a2l.CompuVTab{Name: "t"}, cd)
			ok = s == verbs[k]
		case 2:
			var s string
			s, err = calcTabVerbRange(dec, &a2l.CompuVTabRange{Name: "t"}, cd)
			ok = s == verbs[k]
		}
		if !there[k] {
			verifAssert(err != nil, "a table of another module or other data is used")
			return
		}
		verifReach("converted")
		verifAssert(err == nil, "a table entry is not found")
		verifAssert(ok, "the entry of another table is returned")
	})
}

// C18: methods of one name with other coefficients, one after the other; and other values of one method.
//
//verif:run C18 quick cpu=1 n=2 reach=converted
func VerifH_convLinearAgain() {
	cd := verifCD()
	a := []float64{2, -3}
	b := []float64{1, 4}
	ms := []*a2l.CompuMethod{}
	for i := range a {
		cm := &a2l.CompuMethod{Name: "cm", NameSet: true, ConversionType: a2l.Linear, ConversionTypeSet: true}
		cm.CoeffsLinear = a2l.CoeffsLinear{A: a[i], ASet: true, B: b[i], BSet: true}
		ms = append(ms, cm)
	}
	rat := []float64{2, 4}
	for i := range rat {
		// dec = rat x
		cm := &a2l.CompuMethod{Name: "cm", NameSet: true, ConversionType: a2l.RatFunc, ConversionTypeSet: true}
		cm.Coeffs = a2l.Coeffs{B: rat[i], F: 1, ASet: true, BSet: true, CSet: true, DSet: true, ESet: true, FSet: true}
		ms = append(ms, cm)
	}
	ms = append(ms, &a2l.CompuMethod{Name: "cm", NameSet: true, ConversionType: a2l.Identical, ConversionTypeSet: true})
	for i := 0; i < verifParam("n"); i++ {
		k := verifChoose("method", len(ms))
		dec := float64(verifSmall("dec", 8))
		v, err := convDecToPhy(dec, ms[k], cd)
		verifReach("converted")
		verifAssert(err == nil, "a conversion fails")
		want := dec
		if k < 2 {
			want = a[k]*dec + b[k]
		} else if k < 4 {
			want = dec / rat[k-2]
		}
		d := v - want
		verifAssert(d < 1e-6 && d > -1e-6, "a conversion gives another number")
	}
}

// C24: deposits of one name looked up one after the other.
//
//verif:run C24 quick cpu=1 n=2 reach=found
//verif:run C24 thorough cpu=1 n=3 reach=found
func VerifH_depositAgain() {
	l := verifTwo()
	d := verifTok("deposit")
	var there [4]bool
	for i := range there {
		there[i] = i == 0 || verifBool("there")
		if there[i] {
			rl := a2l.RecordLayout{Name: d, NameSet: true}
			rl.NoAxisPtsX.Position, rl.NoAxisPtsX.PositionSet = uint16(i+1), true
			l[i/2].A2l.Project.Modules[i%2].RecordLayouts = map[string]a2l.RecordLayout{d: rl}
		}
	}
	ch := &a2l.Characteristic{Name: "c", Deposit: d, DepositSet: true}
	verifEach(l, verifParam("n"), func(cd *CalibrationData, k int) {
		rl, err := cd.getRecordLayout(ch)
		if !there[k] {
			verifAssert(err != nil, "a record layout of another module or other data is found")
			return
		}
		verifAssert(err == nil && rl != nil, "the record layout a deposit names is not found")
		verifAssert(rl.NoAxisPtsX.Position == uint16(k+1), "another record layout is found")
		verifReach("found")
	})
}

// C24: values of characteristics of one name, with layouts of one name, read one after the other.
//
//verif:run C24 quick cpu=1 n=2 reach=read
//verif:run C24 thorough cpu=1 n=3 reach=read
func VerifH_valuesAgain() {
	l := verifTwo()
	// where the component lies and what its type is depends on data and module
	types := []int{0, 2, 4, 1}
	bytes := [2][]byte{verifPut(l[0], 0x100, 32, -1), verifPut(l[1], 0x100, 32, -1)}
	p := verifParts[verifChoose("part", len(verifParts))]
	addr := []string{"0x100", "0x104", "0x108", "0x10B"}
	var chs [4]*a2l.Characteristic
	for i := range types {
		rl := a2l.RecordLayout{Name: "rl", NameSet: true}
		p.set(&rl, verifTypes[types[i]], true, uint16(i))
		m := &l[i/2].A2l.Project.Modules[i%2]
		m.RecordLayouts = map[string]a2l.RecordLayout{"rl": rl}
		chs[i] = &a2l.Characteristic{Name: "c", Address: addr[i], Deposit: "rl", DepositSet: true}
		m.Characteristics = map[string]a2l.Characteristic{"c": *chs[i]}
	}
	at := []int{0, 4, 8, 11}
	verifEach(l, verifParam("n"), func(cd *CalibrationData, k int) {
		cv := NewCharacteristicValues(chs[k], nil)
		getValuesFromHex(cv, cd)
		verifReach("read")
		raw := verifRaw(bytes[k/2][at[k]:at[k]+verifWidth[types[k]]], false)
		verifAssert(p.val(cv) == verifIntOf(types[k], raw), "a value of other data, of another module or another place")
	})
}
