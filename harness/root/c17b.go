package calibrationReader

import (
	"github.com/asap2Go/calibrationReader/a2l"
)

// C17: the components of a deposit structure lie behind each other in the order of their positions.
//
//verif:run C17,C15,C24 quick cpu=1 n=2 types=6 reach=ok
//verif:run C17,C15,C24 quick cpu=1 n=3 types=2 maporder=1 reach=ok
//verif:run C17,C15,C24 thorough cpu=1 n=3 types=6 reach=ok
//verif:run C17,C15,C24 thorough cpu=1 n=4 types=2 maporder=1 reach=ok
func VerifH_depositOrder() {
	n := verifParam("n")
	types := 6
	if k := verifParam("types"); k > 0 {
		types = k
	}
	first := verifChoose("first", len(verifParts))
	cd := verifCD()
	m := &cd.A2l.Project.Modules[0]
	rl := a2l.RecordLayout{}
	var ts []int
	var ps []uint16
	for i := 0; i < n; i++ {
		t := verifChoose("type", types)
		if types == 2 {
			t *= 4
		}
		pos := verifU16("position")
		for _, o := range ps {
			verifAssume(o != pos)
		}
		ts = append(ts, t)
		ps = append(ps, pos)
		verifParts[(first+i*5)%len(verifParts)].set(&rl, verifTypes[t], true, pos)
	}
	m.RecordLayouts = map[string]a2l.RecordLayout{"rl": rl}
	ch := &a2l.Characteristic{Name: "c", Address: "0x1001", Deposit: "rl", DepositSet: true}
	at := uint32(0x1001)
	want := make([]uint64, n)
	done := make([]bool, n)
	for k := 0; k < n; k++ {
		min := -1
		for i := 0; i < n; i++ {
			if !done[i] && (min < 0 || ps[i] < ps[min]) {
				min = i
			}
		}
		done[min] = true
		w := verifWidth[ts[min]]
		at = verifAlign(at, w)
		want[min] = verifRaw(verifPut(cd, at, w, -1), false)
		at += uint32(w)
	}
	cv := NewCharacteristicValues(ch, &rl)
	getValuesFromHex(cv, cd)
	verifReach("ok")
	for i := 0; i < n; i++ {
		verifAssert(verifParts[(first+i*5)%len(verifParts)].val(cv) == verifIntOf(ts[i], want[i]), "a component of the deposit structure has another value")
	}
}

// C17: number of axis points, axis points, and a component behind them; reserved space in front.
//
//verif:run C17,C24 quick cpu=1 reach=ok
func VerifH_depositAxis() {
	cd := verifCD()
	m := &cd.A2l.Project.Modules[0]
	rl := a2l.RecordLayout{}
	ai := verifChoose("axis", 5)
	np := verifParts[15+ai]
	np.set(&rl, a2l.UBYTE, true, 20)
	verifAxes[ai].set(&rl, a2l.SWORD, 30)
	last := verifParts[5+ai] // offset
	last.set(&rl, a2l.ULONG, true, 256)
	rl.Reserved.DataSize, rl.Reserved.DataSizeSet, rl.Reserved.Position, rl.Reserved.PositionSet = a2l.WORD, true, 3, true
	m.RecordLayouts = map[string]a2l.RecordLayout{"rl": rl}
	ch := &a2l.Characteristic{Name: "c", Address: "0x1000", Deposit: "rl", DepositSet: true}
	k := 1 + verifChoose("count", 3)
	cd.Hex[0x1002] = byte(k)
	a := verifPut(cd, 0x1004, 2*k, -1)
	at := verifAlign(uint32(0x1004+2*k), 4)
	b := verifPut(cd, at, 4, -1)
	cv := NewCharacteristicValues(ch, &rl)
	getValuesFromHex(cv, cd)
	verifReach("ok")
	verifAssert(np.val(cv) == int64(k), "the number of axis points is another one")
	v := verifAxes[ai].val(cv)
	verifAssert(len(v) == k, "another number of axis points")
	for i := range v {
		verifDecoded(3, verifRaw(a[2*i:2*i+2], false), v[i])
	}
	verifAssert(last.val(cv) == verifIntOf(4, verifRaw(b, false)), "the component behind the axis points has another value")
}
