package calibrationReader

import (
	"github.com/asap2Go/calibrationReader/a2l"
)

var verifTypes = []a2l.DataTypeEnum{a2l.UBYTE, a2l.SBYTE, a2l.UWORD, a2l.SWORD, a2l.ULONG, a2l.SLONG,
	a2l.AUint64, a2l.AInt64, a2l.Float16Ieee, a2l.Float32Ieee, a2l.Float64Ieee}

// width in bytes, which is the default alignment as well
var verifWidth = []int{1, 1, 2, 2, 4, 4, 8, 8, 2, 4, 8}

func verifCD() *CalibrationData {
	cd := &CalibrationData{}
	cd.A2l.Project.Modules = make([]a2l.Module, 1)
	cd.Hex = map[uint32]byte{}
	return cd
}

// verifLayoutBorder sets the border for the datatype in the record layout.
func verifLayoutBorder(rl *a2l.RecordLayout, t int, border uint16, set bool) {
	switch t {
	case 0, 1:
		rl.AlignmentByte.AlignmentBorder, rl.AlignmentByte.AlignmentBorderSet = border, set
	case 2, 3:
		rl.AlignmentWord.AlignmentBorder, rl.AlignmentWord.AlignmentBorderSet = border, set
	case 4, 5:
		rl.AlignmentLong.AlignmentBorder, rl.AlignmentLong.AlignmentBorderSet = border, set
	case 6, 7:
		rl.AlignmentInt64.AlignmentBorder, rl.AlignmentInt64.AlignmentBorderSet = border, set
	case 8:
		rl.AlignmentFloat16Ieee.AlignmentBorder, rl.AlignmentFloat16Ieee.AlignmentBorderSet = border, set
	case 9:
		rl.AlignmentFloat32Ieee.AlignmentBorder, rl.AlignmentFloat32Ieee.AlignmentBorderSet = border, set
	case 10:
		rl.AlignmentFloat64Ieee.AlignmentBorder, rl.AlignmentFloat64Ieee.AlignmentBorderSet = border, set
	}
}

// verifModuleBorder sets the border for the datatype in the module.
func verifModuleBorder(cd *CalibrationData, t int, border uint16, set bool) {
	m := &cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon
	switch t {
	case 0, 1:
		m.AlignmentByte.AlignmentBorder, m.AlignmentByte.AlignmentBorderSet = border, set
	case 2, 3:
		m.AlignmentWord.AlignmentBorder, m.AlignmentWord.AlignmentBorderSet = border, set
	case 4, 5:
		m.AlignmentLong.AlignmentBorder, m.AlignmentLong.AlignmentBorderSet = border, set
	case 6, 7:
		m.AlignmentInt64.AlignmentBorder, m.AlignmentInt64.AlignmentBorderSet = border, set
	case 8:
		m.AlignmentFloat16Ieee.AlignmentBorder, m.AlignmentFloat16Ieee.AlignmentBorderSet = border, set
	case 9:
		m.AlignmentFloat32Ieee.AlignmentBorder, m.AlignmentFloat32Ieee.AlignmentBorderSet = border, set
	case 10:
		m.AlignmentFloat64Ieee.AlignmentBorder, m.AlignmentFloat64Ieee.AlignmentBorderSet = border, set
	}
}

// verifFillOthers gives every datatype but t an own border, so that taking the border of
// another datatype shows.
func verifFillOthers(cd *CalibrationData, rl *a2l.RecordLayout, t int, border uint16) {
	for _, o := range []int{0, 2, 4, 6, 8, 9, 10} {
		if o == t || o+1 == t && t < 8 {
			continue
		}
		verifLayoutBorder(rl, o, border, true)
		verifModuleBorder(cd, o, border, true)
	}
}

func verifSetOrder(cd *CalibrationData, o a2l.ByteOrderEnum, set bool) {
	b := &cd.A2l.Project.Modules[cd.ModuleIndex].ModCommon.ByteOrder
	b.ByteOrder, b.ByteOrderSet = o, set
}

// verifRaw assembles the bytes in the given order.
func verifRaw(b []byte, little bool) uint64 {
	var v uint64
	for i := range b {
		if little {
			v |= uint64(b[i]) << (8 * uint(i))
		} else {
			v = v<<8 | uint64(b[i])
		}
	}
	return v
}
