package calibrationReader

import (
	"github.com/asap2Go/calibrationReader/a2l"
)

// C15: every address, every datatype, borders that are powers of two in record layout and module.
//
//verif:run C15 quick cpu=1 shifts=4 reach=aligned
//verif:run C15 thorough cpu=1 shifts=12 reach=aligned
func VerifH_alignPow2() {
	t := verifChoose("type", len(verifTypes))
	cd := verifCD()
	rl := &a2l.RecordLayout{}
	verifFillOthers(cd, rl, t, 3)
	k := uint16(1) << uint(verifChoose("shift", verifParam("shifts")))
	other := verifU16("other")
	border := uint32(0)
	switch verifChoose("from", 3) {
	case 0:
		verifLayoutBorder(rl, t, k, true)
		verifModuleBorder(cd, t, other, verifBool("modset"))
		border = uint32(k)
	case 1:
		verifLayoutBorder(rl, t, other, false)
		verifModuleBorder(cd, t, k, true)
		border = uint32(k)
	case 2:
		border = uint32(verifWidth[t])
	}
	a := verifU32("addr")
	verifAssume(a <= 0xffffffff-border)
	r := cd.getNextAlignedAddress(a, verifTypes[t], rl)
	verifReach("aligned")
	verifAssert(r == (a+border-1)&^(border-1), "the address is not the next multiple of the border")
}

// C15: any border, smaller addresses.
//
//verif:run C15,C17,C24 quick cpu=1 bits=6 bbits=4 reach=aligned
//verif:run C15,C17,C24 thorough cpu=1 bits=10 bbits=6 reach=aligned
func VerifH_alignAny() {
	t := verifChoose("type", len(verifTypes))
	cd := verifCD()
	rl := &a2l.RecordLayout{}
	verifFillOthers(cd, rl, t, 3)
	b1, b2 := verifU16("layout"), verifU16("module")
	max := uint16(1) << uint(verifParam("bbits"))
	verifAssume(b1 > 0)
	verifAssume(b1 < max)
	verifAssume(b2 > 0)
	verifAssume(b2 < max)
	border := uint32(verifWidth[t])
	s1, s2 := verifBool("layoutset"), verifBool("moduleset")
	verifLayoutBorder(rl, t, b1, s1)
	verifModuleBorder(cd, t, b2, s2)
	if s1 {
		border = uint32(b1)
	} else if s2 {
		border = uint32(b2)
	}
	a := verifU32("addr")
	verifAssume(a < 1<<uint(verifParam("bits")))
	r := cd.getNextAlignedAddress(a, verifTypes[t], rl)
	verifReach("aligned")
	verifAssert(r >= a, "the aligned address is below the position")
	verifAssert(r-a < border, "the aligned address is not the next one")
	verifAssert(r%border == 0, "the aligned address is not a multiple of the border")
}

// C15: the module in use is the selected one.
//
//verif:run C15,C17,C24 quick cpu=1 reach=aligned
func VerifH_alignModule() {
	t := verifChoose("type", len(verifTypes))
	cd := &CalibrationData{}
	cd.A2l.Project.Modules = make([]a2l.Module, 3)
	for i := 0; i < 3; i++ {
		cd.ModuleIndex = uint8(i)
		verifModuleBorder(cd, t, uint16(16)<<uint(i), true)
	}
	i := verifChoose("module", 3)
	cd.ModuleIndex = uint8(i)
	a := verifU32("addr")
	border := uint32(16) << uint(i)
	verifAssume(a <= 0xffffffff-border)
	r := cd.getNextAlignedAddress(a, verifTypes[t], &a2l.RecordLayout{})
	verifReach("aligned")
	verifAssert(r == (a+border-1)&^(border-1), "the address is not the next multiple of the border of the selected module")
}
