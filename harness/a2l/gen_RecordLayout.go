// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_AxisPts4 = 1

// AxisPts4: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_AxisPts4(b *verifB, m int) AxisPts4 {
	var w AxisPts4
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	w.IndexIncr = indexOrderEnum(b.e("IndexIncr", verifE_IndexOrderEnum, vary))
	w.IndexIncrSet = true
	w.Addressing = AddrTypeEnum(b.e("Addressing", verifE_AddrTypeEnum, vary))
	w.AddressingSet = true
	return w
}
func verifEq_AxisPts4(a, w AxisPts4) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	r = verifAnd(r, a.IndexIncr == w.IndexIncr)
	r = verifAnd(r, a.IndexIncrSet == w.IndexIncrSet)
	r = verifAnd(r, a.Addressing == w.Addressing)
	r = verifAnd(r, a.AddressingSet == w.AddressingSet)
	return r
}

const verifModes_AxisPts5 = 1

// AxisPts5: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_AxisPts5(b *verifB, m int) AxisPts5 {
	var w AxisPts5
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	w.IndexIncr = indexOrderEnum(b.e("IndexIncr", verifE_IndexOrderEnum, vary))
	w.IndexIncrSet = true
	w.Addressing = AddrTypeEnum(b.e("Addressing", verifE_AddrTypeEnum, vary))
	w.AddressingSet = true
	return w
}
func verifEq_AxisPts5(a, w AxisPts5) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	r = verifAnd(r, a.IndexIncr == w.IndexIncr)
	r = verifAnd(r, a.IndexIncrSet == w.IndexIncrSet)
	r = verifAnd(r, a.Addressing == w.Addressing)
	r = verifAnd(r, a.AddressingSet == w.AddressingSet)
	return r
}

const verifModes_AxisPtsX = 1

// AxisPtsX: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_AxisPtsX(b *verifB, m int) AxisPtsX {
	var w AxisPtsX
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	w.IndexIncr = indexOrderEnum(b.e("IndexIncr", verifE_IndexOrderEnum, vary))
	w.IndexIncrSet = true
	w.Addressing = AddrTypeEnum(b.e("Addressing", verifE_AddrTypeEnum, vary))
	w.AddressingSet = true
	return w
}
func verifEq_AxisPtsX(a, w AxisPtsX) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	r = verifAnd(r, a.IndexIncr == w.IndexIncr)
	r = verifAnd(r, a.IndexIncrSet == w.IndexIncrSet)
	r = verifAnd(r, a.Addressing == w.Addressing)
	r = verifAnd(r, a.AddressingSet == w.AddressingSet)
	return r
}

const verifModes_AxisPtsY = 1

// AxisPtsY: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_AxisPtsY(b *verifB, m int) AxisPtsY {
	var w AxisPtsY
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	w.IndexIncr = indexOrderEnum(b.e("IndexIncr", verifE_IndexOrderEnum, vary))
	w.IndexIncrSet = true
	w.Addressing = AddrTypeEnum(b.e("Addressing", verifE_AddrTypeEnum, vary))
	w.AddressingSet = true
	return w
}
func verifEq_AxisPtsY(a, w AxisPtsY) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	r = verifAnd(r, a.IndexIncr == w.IndexIncr)
	r = verifAnd(r, a.IndexIncrSet == w.IndexIncrSet)
	r = verifAnd(r, a.Addressing == w.Addressing)
	r = verifAnd(r, a.AddressingSet == w.AddressingSet)
	return r
}

const verifModes_AxisPtsZ = 1

// AxisPtsZ: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_AxisPtsZ(b *verifB, m int) AxisPtsZ {
	var w AxisPtsZ
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	w.IndexIncr = indexOrderEnum(b.e("IndexIncr", verifE_IndexOrderEnum, vary))
	w.IndexIncrSet = true
	w.Addressing = AddrTypeEnum(b.e("Addressing", verifE_AddrTypeEnum, vary))
	w.AddressingSet = true
	return w
}
func verifEq_AxisPtsZ(a, w AxisPtsZ) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	r = verifAnd(r, a.IndexIncr == w.IndexIncr)
	r = verifAnd(r, a.IndexIncrSet == w.IndexIncrSet)
	r = verifAnd(r, a.Addressing == w.Addressing)
	r = verifAnd(r, a.AddressingSet == w.AddressingSet)
	return r
}

const verifModes_AxisRescaleX = 1

// AxisRescaleX: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_AxisRescaleX(b *verifB, m int) AxisRescaleX {
	var w AxisRescaleX
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	w.MaxNumberOfRescalePairs = b.u16("MaxNumberOfRescalePairs")
	w.MaxNumberOfRescalePairsSet = true
	w.IndexIncr = indexOrderEnum(b.e("IndexIncr", verifE_IndexOrderEnum, vary))
	w.IndexIncrSet = true
	w.Adressing = AddrTypeEnum(b.e("Adressing", verifE_AddrTypeEnum, vary))
	w.AdressingSet = true
	return w
}
func verifEq_AxisRescaleX(a, w AxisRescaleX) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	r = verifAnd(r, a.MaxNumberOfRescalePairs == w.MaxNumberOfRescalePairs)
	r = verifAnd(r, a.MaxNumberOfRescalePairsSet == w.MaxNumberOfRescalePairsSet)
	r = verifAnd(r, a.IndexIncr == w.IndexIncr)
	r = verifAnd(r, a.IndexIncrSet == w.IndexIncrSet)
	r = verifAnd(r, a.Adressing == w.Adressing)
	r = verifAnd(r, a.AdressingSet == w.AdressingSet)
	return r
}

const verifModes_DistOp4 = 1

// DistOp4: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_DistOp4(b *verifB, m int) DistOp4 {
	var w DistOp4
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_DistOp4(a, w DistOp4) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_DistOp5 = 1

// DistOp5: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_DistOp5(b *verifB, m int) DistOp5 {
	var w DistOp5
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_DistOp5(a, w DistOp5) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_DistOpX = 1

// DistOpX: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_DistOpX(b *verifB, m int) DistOpX {
	var w DistOpX
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_DistOpX(a, w DistOpX) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_DistOpY = 1

// DistOpY: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_DistOpY(b *verifB, m int) DistOpY {
	var w DistOpY
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_DistOpY(a, w DistOpY) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_DistOpZ = 1

// DistOpZ: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_DistOpZ(b *verifB, m int) DistOpZ {
	var w DistOpZ
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_DistOpZ(a, w DistOpZ) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_FixNoAxisPts4 = 1

// FixNoAxisPts4: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_FixNoAxisPts4(b *verifB, m int) FixNoAxisPts4 {
	var w FixNoAxisPts4
	vary := m == 0
	_ = vary
	w.NumberOfAxisPoints = b.u16("NumberOfAxisPoints")
	w.NumberOfAxisPointsSet = true
	return w
}
func verifEq_FixNoAxisPts4(a, w FixNoAxisPts4) bool {
	r := true
	r = verifAnd(r, a.NumberOfAxisPoints == w.NumberOfAxisPoints)
	r = verifAnd(r, a.NumberOfAxisPointsSet == w.NumberOfAxisPointsSet)
	return r
}

const verifModes_FixNoAxisPts5 = 1

// FixNoAxisPts5: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_FixNoAxisPts5(b *verifB, m int) FixNoAxisPts5 {
	var w FixNoAxisPts5
	vary := m == 0
	_ = vary
	w.NumberOfAxisPoints = b.u16("NumberOfAxisPoints")
	w.NumberOfAxisPointsSet = true
	return w
}
func verifEq_FixNoAxisPts5(a, w FixNoAxisPts5) bool {
	r := true
	r = verifAnd(r, a.NumberOfAxisPoints == w.NumberOfAxisPoints)
	r = verifAnd(r, a.NumberOfAxisPointsSet == w.NumberOfAxisPointsSet)
	return r
}

const verifModes_FixNoAxisPtsX = 1

// FixNoAxisPtsX: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_FixNoAxisPtsX(b *verifB, m int) FixNoAxisPtsX {
	var w FixNoAxisPtsX
	vary := m == 0
	_ = vary
	w.NumberOfAxisPoints = b.u16("NumberOfAxisPoints")
	w.NumberOfAxisPointsSet = true
	return w
}
func verifEq_FixNoAxisPtsX(a, w FixNoAxisPtsX) bool {
	r := true
	r = verifAnd(r, a.NumberOfAxisPoints == w.NumberOfAxisPoints)
	r = verifAnd(r, a.NumberOfAxisPointsSet == w.NumberOfAxisPointsSet)
	return r
}

const verifModes_FixNoAxisPtsY = 1

// FixNoAxisPtsY: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_FixNoAxisPtsY(b *verifB, m int) FixNoAxisPtsY {
	var w FixNoAxisPtsY
	vary := m == 0
	_ = vary
	w.NumberOfAxisPoints = b.u16("NumberOfAxisPoints")
	w.NumberOfAxisPointsSet = true
	return w
}
func verifEq_FixNoAxisPtsY(a, w FixNoAxisPtsY) bool {
	r := true
	r = verifAnd(r, a.NumberOfAxisPoints == w.NumberOfAxisPoints)
	r = verifAnd(r, a.NumberOfAxisPointsSet == w.NumberOfAxisPointsSet)
	return r
}

const verifModes_FixNoAxisPtsZ = 1

// FixNoAxisPtsZ: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_FixNoAxisPtsZ(b *verifB, m int) FixNoAxisPtsZ {
	var w FixNoAxisPtsZ
	vary := m == 0
	_ = vary
	w.NumberOfAxisPoints = b.u16("NumberOfAxisPoints")
	w.NumberOfAxisPointsSet = true
	return w
}
func verifEq_FixNoAxisPtsZ(a, w FixNoAxisPtsZ) bool {
	r := true
	r = verifAnd(r, a.NumberOfAxisPoints == w.NumberOfAxisPoints)
	r = verifAnd(r, a.NumberOfAxisPointsSet == w.NumberOfAxisPointsSet)
	return r
}

const verifModes_FncValues = 1

// FncValues: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_FncValues(b *verifB, m int) FncValues {
	var w FncValues
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	w.IndexMode = indexModeEnum(b.e("IndexMode", verifE_IndexModeEnum, vary))
	w.IndexModeSet = true
	w.Addresstype = AddrTypeEnum(b.e("Addresstype", verifE_AddrTypeEnum, vary))
	w.AddresstypeSet = true
	return w
}
func verifEq_FncValues(a, w FncValues) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	r = verifAnd(r, a.IndexMode == w.IndexMode)
	r = verifAnd(r, a.IndexModeSet == w.IndexModeSet)
	r = verifAnd(r, a.Addresstype == w.Addresstype)
	r = verifAnd(r, a.AddresstypeSet == w.AddresstypeSet)
	return r
}

const verifModes_Identification = 1

// Identification: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_Identification(b *verifB, m int) Identification {
	var w Identification
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_Identification(a, w Identification) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_NoAxisPts4 = 1

// NoAxisPts4: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_NoAxisPts4(b *verifB, m int) NoAxisPts4 {
	var w NoAxisPts4
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_NoAxisPts4(a, w NoAxisPts4) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_NoAxisPts5 = 1

// NoAxisPts5: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_NoAxisPts5(b *verifB, m int) NoAxisPts5 {
	var w NoAxisPts5
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_NoAxisPts5(a, w NoAxisPts5) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_NoAxisPtsX = 1

// NoAxisPtsX: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_NoAxisPtsX(b *verifB, m int) NoAxisPtsX {
	var w NoAxisPtsX
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_NoAxisPtsX(a, w NoAxisPtsX) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_NoAxisPtsY = 1

// NoAxisPtsY: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_NoAxisPtsY(b *verifB, m int) NoAxisPtsY {
	var w NoAxisPtsY
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_NoAxisPtsY(a, w NoAxisPtsY) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_NoAxisPtsZ = 1

// NoAxisPtsZ: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_NoAxisPtsZ(b *verifB, m int) NoAxisPtsZ {
	var w NoAxisPtsZ
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_NoAxisPtsZ(a, w NoAxisPtsZ) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_NoRescaleX = 1

// NoRescaleX: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_NoRescaleX(b *verifB, m int) NoRescaleX {
	var w NoRescaleX
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_NoRescaleX(a, w NoRescaleX) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_Offset4 = 1

// Offset4: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_Offset4(b *verifB, m int) Offset4 {
	var w Offset4
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_Offset4(a, w Offset4) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_Offset5 = 1

// Offset5: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_Offset5(b *verifB, m int) Offset5 {
	var w Offset5
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_Offset5(a, w Offset5) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_OffsetX = 1

// OffsetX: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_OffsetX(b *verifB, m int) OffsetX {
	var w OffsetX
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_OffsetX(a, w OffsetX) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_OffsetZ = 1

// OffsetZ: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_OffsetZ(b *verifB, m int) OffsetZ {
	var w OffsetZ
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_OffsetZ(a, w OffsetZ) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_RecordLayout = 58
const verifPairs_RecordLayout = 3025

// RecordLayout: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_RecordLayout(b *verifB, m int) RecordLayout {
	var w RecordLayout
	vary := m == 0
	_ = vary
	w.Name = b.s("Name")
	w.NameSet = true
	k := m - 1
	all, rev := m == verifModes_RecordLayout-2, m == verifModes_RecordLayout-1
	pair, first, second, nested := m >= verifModes_RecordLayout, -1, -1, m-verifModes_RecordLayout-3025
	if pair && nested < 0 {
		first, second = (m-verifModes_RecordLayout)/55, (m-verifModes_RecordLayout)%55
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 55; i++ {
		o := i
		if rev {
			o = 54 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ALIGNMENT_BYTE")
				w.AlignmentByte = verifMk_alignmentByte(b, sub)
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 2 {
				sub := k - 1
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ALIGNMENT_FLOAT16_IEEE")
				w.AlignmentFloat16Ieee = verifMk_alignmentFloat16Ieee(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 2 && k < 3 {
				sub := k - 2
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ALIGNMENT_FLOAT32_IEEE")
				w.AlignmentFloat32Ieee = verifMk_alignmentFloat32Ieee(b, sub)
			}
		case 3:
			if all || rev || k == -2 || k >= 3 && k < 4 {
				sub := k - 3
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ALIGNMENT_FLOAT64_IEEE")
				w.AlignmentFloat64Ieee = verifMk_alignmentFloat64Ieee(b, sub)
			}
		case 4:
			if all || rev || k == -2 || k >= 4 && k < 5 {
				sub := k - 4
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ALIGNMENT_INT64")
				w.AlignmentInt64 = verifMk_alignmentInt64(b, sub)
			}
		case 5:
			if all || rev || k == -2 || k >= 5 && k < 6 {
				sub := k - 5
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ALIGNMENT_LONG")
				w.AlignmentLong = verifMk_alignmentLong(b, sub)
			}
		case 6:
			if all || rev || k == -2 || k >= 6 && k < 7 {
				sub := k - 6
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ALIGNMENT_WORD")
				w.AlignmentWord = verifMk_alignmentWord(b, sub)
			}
		case 7:
			if all || rev || k == -2 || k >= 7 && k < 8 {
				sub := k - 7
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("AXIS_PTS_X")
				w.AxisPtsX = verifMk_AxisPtsX(b, sub)
			}
		case 8:
			if all || rev || k == -2 || k >= 8 && k < 9 {
				sub := k - 8
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("AXIS_PTS_Y")
				w.AxisPtsY = verifMk_AxisPtsY(b, sub)
			}
		case 9:
			if all || rev || k == -2 || k >= 9 && k < 10 {
				sub := k - 9
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("AXIS_PTS_Z")
				w.AxisPtsZ = verifMk_AxisPtsZ(b, sub)
			}
		case 10:
			if all || rev || k == -2 || k >= 10 && k < 11 {
				sub := k - 10
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("AXIS_PTS_4")
				w.AxisPts4 = verifMk_AxisPts4(b, sub)
			}
		case 11:
			if all || rev || k == -2 || k >= 11 && k < 12 {
				sub := k - 11
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("AXIS_PTS_5")
				w.AxisPts5 = verifMk_AxisPts5(b, sub)
			}
		case 12:
			if all || rev || k == -2 || k >= 12 && k < 13 {
				sub := k - 12
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("AXIS_RESCALE_X")
				w.AxisRescaleX = verifMk_AxisRescaleX(b, sub)
			}
		case 13:
			if all || rev || k == -2 || k >= 13 && k < 14 {
				sub := k - 13
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DIST_OP_X")
				w.DistOpX = verifMk_DistOpX(b, sub)
			}
		case 14:
			if all || rev || k == -2 || k >= 14 && k < 15 {
				sub := k - 14
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DIST_OP_Y")
				w.DistOpY = verifMk_DistOpY(b, sub)
			}
		case 15:
			if all || rev || k == -2 || k >= 15 && k < 16 {
				sub := k - 15
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DIST_OP_Z")
				w.DistOpZ = verifMk_DistOpZ(b, sub)
			}
		case 16:
			if all || rev || k == -2 || k >= 16 && k < 17 {
				sub := k - 16
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DIST_OP_4")
				w.DistOp4 = verifMk_DistOp4(b, sub)
			}
		case 17:
			if all || rev || k == -2 || k >= 17 && k < 18 {
				sub := k - 17
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DIST_OP_5")
				w.DistOp5 = verifMk_DistOp5(b, sub)
			}
		case 18:
			if all || rev || k == -2 || k >= 18 && k < 19 {
				sub := k - 18
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FIX_NO_AXIS_PTS_X")
				w.FixNoAxisPtsX = verifMk_FixNoAxisPtsX(b, sub)
			}
		case 19:
			if all || rev || k == -2 || k >= 19 && k < 20 {
				sub := k - 19
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FIX_NO_AXIS_PTS_Y")
				w.FixNoAxisPtsY = verifMk_FixNoAxisPtsY(b, sub)
			}
		case 20:
			if all || rev || k == -2 || k >= 20 && k < 21 {
				sub := k - 20
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FIX_NO_AXIS_PTS_Z")
				w.FixNoAxisPtsZ = verifMk_FixNoAxisPtsZ(b, sub)
			}
		case 21:
			if all || rev || k == -2 || k >= 21 && k < 22 {
				sub := k - 21
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FIX_NO_AXIS_PTS_4")
				w.FixNoAxisPts4 = verifMk_FixNoAxisPts4(b, sub)
			}
		case 22:
			if all || rev || k == -2 || k >= 22 && k < 23 {
				sub := k - 22
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FIX_NO_AXIS_PTS_5")
				w.FixNoAxisPts5 = verifMk_FixNoAxisPts5(b, sub)
			}
		case 23:
			if all || rev || k == -2 || k >= 23 && k < 24 {
				sub := k - 23
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("FNC_VALUES")
				w.FncValues = verifMk_FncValues(b, sub)
			}
		case 24:
			if all || rev || k == -2 || k >= 24 && k < 25 {
				sub := k - 24
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("IDENTIFICATION")
				w.Identification = verifMk_Identification(b, sub)
			}
		case 25:
			if all || rev || k == -2 || k >= 25 && k < 26 {
				sub := k - 25
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("NO_AXIS_PTS_X")
				w.NoAxisPtsX = verifMk_NoAxisPtsX(b, sub)
			}
		case 26:
			if all || rev || k == -2 || k >= 26 && k < 27 {
				sub := k - 26
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("NO_AXIS_PTS_Y")
				w.NoAxisPtsY = verifMk_NoAxisPtsY(b, sub)
			}
		case 27:
			if all || rev || k == -2 || k >= 27 && k < 28 {
				sub := k - 27
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("NO_AXIS_PTS_Z")
				w.NoAxisPtsZ = verifMk_NoAxisPtsZ(b, sub)
			}
		case 28:
			if all || rev || k == -2 || k >= 28 && k < 29 {
				sub := k - 28
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("NO_AXIS_PTS_4")
				w.NoAxisPts4 = verifMk_NoAxisPts4(b, sub)
			}
		case 29:
			if all || rev || k == -2 || k >= 29 && k < 30 {
				sub := k - 29
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("NO_AXIS_PTS_5")
				w.NoAxisPts5 = verifMk_NoAxisPts5(b, sub)
			}
		case 30:
			if all || rev || k == -2 || k >= 30 && k < 31 {
				sub := k - 30
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("NO_RESCALE_X")
				w.NoRescaleX = verifMk_NoRescaleX(b, sub)
			}
		case 31:
			if all || rev || k == -2 || k >= 31 && k < 32 {
				sub := k - 31
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("OFFSET_X")
				w.OffsetX = verifMk_OffsetX(b, sub)
			}
		case 32:
			if all || rev || k == -2 || k >= 32 && k < 33 {
				sub := k - 32
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("OFFSET_Y")
				w.OffsetY = verifMk_offsetY(b, sub)
			}
		case 33:
			if all || rev || k == -2 || k >= 33 && k < 34 {
				sub := k - 33
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("OFFSET_Z")
				w.OffsetZ = verifMk_OffsetZ(b, sub)
			}
		case 34:
			if all || rev || k == -2 || k >= 34 && k < 35 {
				sub := k - 34
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("OFFSET_4")
				w.Offset4 = verifMk_Offset4(b, sub)
			}
		case 35:
			if all || rev || k == -2 || k >= 35 && k < 36 {
				sub := k - 35
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("OFFSET_5")
				w.Offset5 = verifMk_Offset5(b, sub)
			}
		case 36:
			if all || rev || k == -2 || k >= 36 && k < 37 {
				sub := k - 36
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("RESERVED")
				w.Reserved = verifMk_Reserved(b, sub)
			}
		case 37:
			if all || rev || k == -2 || k >= 37 && k < 38 {
				sub := k - 37
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("RIP_ADDR_W")
				w.RipAddrW = verifMk_RipAddrW(b, sub)
			}
		case 38:
			if all || rev || k == -2 || k >= 38 && k < 39 {
				sub := k - 38
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("RIP_ADDR_X")
				w.RipAddrX = verifMk_ripAddrX(b, sub)
			}
		case 39:
			if all || rev || k == -2 || k >= 39 && k < 40 {
				sub := k - 39
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("RIP_ADDR_Y")
				w.RipAddrY = verifMk_RipAddrY(b, sub)
			}
		case 40:
			if all || rev || k == -2 || k >= 40 && k < 41 {
				sub := k - 40
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("RIP_ADDR_Z")
				w.RipAddrZ = verifMk_RipAddrZ(b, sub)
			}
		case 41:
			if all || rev || k == -2 || k >= 41 && k < 42 {
				sub := k - 41
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("RIP_ADDR_4")
				w.RipAddr4 = verifMk_RipAddr4(b, sub)
			}
		case 42:
			if all || rev || k == -2 || k >= 42 && k < 43 {
				sub := k - 42
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("RIP_ADDR_5")
				w.RipAddr5 = verifMk_RipAddr5(b, sub)
			}
		case 43:
			if all || rev || k == -2 || k >= 43 && k < 44 {
				sub := k - 43
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SRC_ADDR_X")
				w.SrcAddrX = verifMk_srcAddrX(b, sub)
			}
		case 44:
			if all || rev || k == -2 || k >= 44 && k < 45 {
				sub := k - 44
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SRC_ADDR_Y")
				w.SrcAddrY = verifMk_srcAddrY(b, sub)
			}
		case 45:
			if all || rev || k == -2 || k >= 45 && k < 46 {
				sub := k - 45
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SRC_ADDR_Z")
				w.SrcAddrZ = verifMk_srcAddrZ(b, sub)
			}
		case 46:
			if all || rev || k == -2 || k >= 46 && k < 47 {
				sub := k - 46
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SRC_ADDR_4")
				w.SrcAddr4 = verifMk_srcAddr4(b, sub)
			}
		case 47:
			if all || rev || k == -2 || k >= 47 && k < 48 {
				sub := k - 47
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SRC_ADDR_5")
				w.SrcAddr5 = verifMk_srcAddr5(b, sub)
			}
		case 48:
			if all || rev || k == -2 || k >= 48 && k < 49 {
				sub := k - 48
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SHIFT_OP_X")
				w.ShiftOpX = verifMk_ShiftOpX(b, sub)
			}
		case 49:
			if all || rev || k == -2 || k >= 49 && k < 50 {
				sub := k - 49
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SHIFT_OP_Y")
				w.ShiftOpY = verifMk_ShiftOpY(b, sub)
			}
		case 50:
			if all || rev || k == -2 || k >= 50 && k < 51 {
				sub := k - 50
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SHIFT_OP_Z")
				w.ShiftOpZ = verifMk_ShiftOpZ(b, sub)
			}
		case 51:
			if all || rev || k == -2 || k >= 51 && k < 52 {
				sub := k - 51
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SHIFT_OP_4")
				w.ShiftOp4 = verifMk_ShiftOp4(b, sub)
			}
		case 52:
			if all || rev || k == -2 || k >= 52 && k < 53 {
				sub := k - 52
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("SHIFT_OP_5")
				w.ShiftOp5 = verifMk_ShiftOp5(b, sub)
			}
		case 53:
			if all || rev || k == -2 || k >= 53 && k < 54 {
				sub := k - 53
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("STATIC_RECORD_LAYOUT")
				w.StaticRecordLayout = verifMk_staticRecordLayoutKeyword(b, sub)
			}
		case 54:
			if all || rev || k == -2 || k >= 54 && k < 55 {
				sub := k - 54
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("STATIC_ADDRESS_OFFSETS")
				w.StaticAddressOffsets = verifMk_staticAddressOffsetsKeyword(b, sub)
			}
		}
	}
	b.t("/end RECORD_LAYOUT")
	return w
}
func verifEq_RecordLayout(a, w RecordLayout) bool {
	r := true
	r = verifAnd(r, a.Name == w.Name)
	r = verifAnd(r, a.NameSet == w.NameSet)
	r = verifAnd(r, verifEq_alignmentByte(a.AlignmentByte, w.AlignmentByte))
	r = verifAnd(r, verifEq_alignmentFloat16Ieee(a.AlignmentFloat16Ieee, w.AlignmentFloat16Ieee))
	r = verifAnd(r, verifEq_alignmentFloat32Ieee(a.AlignmentFloat32Ieee, w.AlignmentFloat32Ieee))
	r = verifAnd(r, verifEq_alignmentFloat64Ieee(a.AlignmentFloat64Ieee, w.AlignmentFloat64Ieee))
	r = verifAnd(r, verifEq_alignmentInt64(a.AlignmentInt64, w.AlignmentInt64))
	r = verifAnd(r, verifEq_alignmentLong(a.AlignmentLong, w.AlignmentLong))
	r = verifAnd(r, verifEq_alignmentWord(a.AlignmentWord, w.AlignmentWord))
	r = verifAnd(r, verifEq_AxisPtsX(a.AxisPtsX, w.AxisPtsX))
	r = verifAnd(r, verifEq_AxisPtsY(a.AxisPtsY, w.AxisPtsY))
	r = verifAnd(r, verifEq_AxisPtsZ(a.AxisPtsZ, w.AxisPtsZ))
	r = verifAnd(r, verifEq_AxisPts4(a.AxisPts4, w.AxisPts4))
	r = verifAnd(r, verifEq_AxisPts5(a.AxisPts5, w.AxisPts5))
	r = verifAnd(r, verifEq_AxisRescaleX(a.AxisRescaleX, w.AxisRescaleX))
	r = verifAnd(r, verifEq_DistOpX(a.DistOpX, w.DistOpX))
	r = verifAnd(r, verifEq_DistOpY(a.DistOpY, w.DistOpY))
	r = verifAnd(r, verifEq_DistOpZ(a.DistOpZ, w.DistOpZ))
	r = verifAnd(r, verifEq_DistOp4(a.DistOp4, w.DistOp4))
	r = verifAnd(r, verifEq_DistOp5(a.DistOp5, w.DistOp5))
	r = verifAnd(r, verifEq_FixNoAxisPtsX(a.FixNoAxisPtsX, w.FixNoAxisPtsX))
	r = verifAnd(r, verifEq_FixNoAxisPtsY(a.FixNoAxisPtsY, w.FixNoAxisPtsY))
	r = verifAnd(r, verifEq_FixNoAxisPtsZ(a.FixNoAxisPtsZ, w.FixNoAxisPtsZ))
	r = verifAnd(r, verifEq_FixNoAxisPts4(a.FixNoAxisPts4, w.FixNoAxisPts4))
	r = verifAnd(r, verifEq_FixNoAxisPts5(a.FixNoAxisPts5, w.FixNoAxisPts5))
	r = verifAnd(r, verifEq_FncValues(a.FncValues, w.FncValues))
	r = verifAnd(r, verifEq_Identification(a.Identification, w.Identification))
	r = verifAnd(r, verifEq_NoAxisPtsX(a.NoAxisPtsX, w.NoAxisPtsX))
	r = verifAnd(r, verifEq_NoAxisPtsY(a.NoAxisPtsY, w.NoAxisPtsY))
	r = verifAnd(r, verifEq_NoAxisPtsZ(a.NoAxisPtsZ, w.NoAxisPtsZ))
	r = verifAnd(r, verifEq_NoAxisPts4(a.NoAxisPts4, w.NoAxisPts4))
	r = verifAnd(r, verifEq_NoAxisPts5(a.NoAxisPts5, w.NoAxisPts5))
	r = verifAnd(r, verifEq_NoRescaleX(a.NoRescaleX, w.NoRescaleX))
	r = verifAnd(r, verifEq_OffsetX(a.OffsetX, w.OffsetX))
	r = verifAnd(r, verifEq_offsetY(a.OffsetY, w.OffsetY))
	r = verifAnd(r, verifEq_OffsetZ(a.OffsetZ, w.OffsetZ))
	r = verifAnd(r, verifEq_Offset4(a.Offset4, w.Offset4))
	r = verifAnd(r, verifEq_Offset5(a.Offset5, w.Offset5))
	r = verifAnd(r, verifEq_Reserved(a.Reserved, w.Reserved))
	r = verifAnd(r, verifEq_RipAddrW(a.RipAddrW, w.RipAddrW))
	r = verifAnd(r, verifEq_ripAddrX(a.RipAddrX, w.RipAddrX))
	r = verifAnd(r, verifEq_RipAddrY(a.RipAddrY, w.RipAddrY))
	r = verifAnd(r, verifEq_RipAddrZ(a.RipAddrZ, w.RipAddrZ))
	r = verifAnd(r, verifEq_RipAddr4(a.RipAddr4, w.RipAddr4))
	r = verifAnd(r, verifEq_RipAddr5(a.RipAddr5, w.RipAddr5))
	r = verifAnd(r, verifEq_srcAddrX(a.SrcAddrX, w.SrcAddrX))
	r = verifAnd(r, verifEq_srcAddrY(a.SrcAddrY, w.SrcAddrY))
	r = verifAnd(r, verifEq_srcAddrZ(a.SrcAddrZ, w.SrcAddrZ))
	r = verifAnd(r, verifEq_srcAddr4(a.SrcAddr4, w.SrcAddr4))
	r = verifAnd(r, verifEq_srcAddr5(a.SrcAddr5, w.SrcAddr5))
	r = verifAnd(r, verifEq_ShiftOpX(a.ShiftOpX, w.ShiftOpX))
	r = verifAnd(r, verifEq_ShiftOpY(a.ShiftOpY, w.ShiftOpY))
	r = verifAnd(r, verifEq_ShiftOpZ(a.ShiftOpZ, w.ShiftOpZ))
	r = verifAnd(r, verifEq_ShiftOp4(a.ShiftOp4, w.ShiftOp4))
	r = verifAnd(r, verifEq_ShiftOp5(a.ShiftOp5, w.ShiftOp5))
	r = verifAnd(r, verifEq_staticRecordLayoutKeyword(a.StaticRecordLayout, w.StaticRecordLayout))
	r = verifAnd(r, verifEq_staticAddressOffsetsKeyword(a.StaticAddressOffsets, w.StaticAddressOffsets))
	return r
}

const verifModes_Reserved = 1

// Reserved: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_Reserved(b *verifB, m int) Reserved {
	var w Reserved
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.DataSize = DataSizeEnum(b.e("DataSize", verifE_DataSizeEnum, vary))
	w.DataSizeSet = true
	return w
}
func verifEq_Reserved(a, w Reserved) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.DataSize == w.DataSize)
	r = verifAnd(r, a.DataSizeSet == w.DataSizeSet)
	return r
}

const verifModes_RipAddr4 = 1

// RipAddr4: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_RipAddr4(b *verifB, m int) RipAddr4 {
	var w RipAddr4
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_RipAddr4(a, w RipAddr4) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_RipAddr5 = 1

// RipAddr5: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_RipAddr5(b *verifB, m int) RipAddr5 {
	var w RipAddr5
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_RipAddr5(a, w RipAddr5) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_RipAddrW = 1

// RipAddrW: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_RipAddrW(b *verifB, m int) RipAddrW {
	var w RipAddrW
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_RipAddrW(a, w RipAddrW) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_RipAddrY = 1

// RipAddrY: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_RipAddrY(b *verifB, m int) RipAddrY {
	var w RipAddrY
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_RipAddrY(a, w RipAddrY) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_RipAddrZ = 1

// RipAddrZ: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_RipAddrZ(b *verifB, m int) RipAddrZ {
	var w RipAddrZ
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_RipAddrZ(a, w RipAddrZ) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_ShiftOp4 = 1

// ShiftOp4: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_ShiftOp4(b *verifB, m int) ShiftOp4 {
	var w ShiftOp4
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_ShiftOp4(a, w ShiftOp4) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_ShiftOp5 = 1

// ShiftOp5: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_ShiftOp5(b *verifB, m int) ShiftOp5 {
	var w ShiftOp5
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_ShiftOp5(a, w ShiftOp5) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_ShiftOpX = 1

// ShiftOpX: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_ShiftOpX(b *verifB, m int) ShiftOpX {
	var w ShiftOpX
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_ShiftOpX(a, w ShiftOpX) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_ShiftOpY = 1

// ShiftOpY: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_ShiftOpY(b *verifB, m int) ShiftOpY {
	var w ShiftOpY
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_ShiftOpY(a, w ShiftOpY) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_ShiftOpZ = 1

// ShiftOpZ: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_ShiftOpZ(b *verifB, m int) ShiftOpZ {
	var w ShiftOpZ
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_ShiftOpZ(a, w ShiftOpZ) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_offsetY = 1

// offsetY: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_offsetY(b *verifB, m int) offsetY {
	var w offsetY
	vary := m == 0
	_ = vary
	w.Position = b.u16("Position")
	w.PositionSet = true
	w.Datatype = DataTypeEnum(b.e("Datatype", verifE_DataTypeEnum, vary))
	w.DatatypeSet = true
	return w
}
func verifEq_offsetY(a, w offsetY) bool {
	r := true
	r = verifAnd(r, a.Position == w.Position)
	r = verifAnd(r, a.PositionSet == w.PositionSet)
	r = verifAnd(r, a.Datatype == w.Datatype)
	r = verifAnd(r, a.DatatypeSet == w.DatatypeSet)
	return r
}

const verifModes_ripAddrX = 1

// ripAddrX: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_ripAddrX(b *verifB, m int) ripAddrX {
	var w ripAddrX
	vary := m == 0
	_ = vary
	w.position = b.u16("position")
	w.positionSet = true
	w.datatype = DataTypeEnum(b.e("datatype", verifE_DataTypeEnum, vary))
	w.datatypeSet = true
	return w
}
func verifEq_ripAddrX(a, w ripAddrX) bool {
	r := true
	r = verifAnd(r, a.position == w.position)
	r = verifAnd(r, a.positionSet == w.positionSet)
	r = verifAnd(r, a.datatype == w.datatype)
	r = verifAnd(r, a.datatypeSet == w.datatypeSet)
	return r
}

const verifModes_srcAddr4 = 1

// srcAddr4: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_srcAddr4(b *verifB, m int) srcAddr4 {
	var w srcAddr4
	vary := m == 0
	_ = vary
	w.position = b.u16("position")
	w.positionSet = true
	w.datatype = DataTypeEnum(b.e("datatype", verifE_DataTypeEnum, vary))
	w.datatypeSet = true
	return w
}
func verifEq_srcAddr4(a, w srcAddr4) bool {
	r := true
	r = verifAnd(r, a.position == w.position)
	r = verifAnd(r, a.positionSet == w.positionSet)
	r = verifAnd(r, a.datatype == w.datatype)
	r = verifAnd(r, a.datatypeSet == w.datatypeSet)
	return r
}

const verifModes_srcAddr5 = 1

// srcAddr5: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_srcAddr5(b *verifB, m int) srcAddr5 {
	var w srcAddr5
	vary := m == 0
	_ = vary
	w.position = b.u16("position")
	w.positionSet = true
	w.datatype = DataTypeEnum(b.e("datatype", verifE_DataTypeEnum, vary))
	w.datatypeSet = true
	return w
}
func verifEq_srcAddr5(a, w srcAddr5) bool {
	r := true
	r = verifAnd(r, a.position == w.position)
	r = verifAnd(r, a.positionSet == w.positionSet)
	r = verifAnd(r, a.datatype == w.datatype)
	r = verifAnd(r, a.datatypeSet == w.datatypeSet)
	return r
}

const verifModes_srcAddrX = 1

// srcAddrX: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_srcAddrX(b *verifB, m int) srcAddrX {
	var w srcAddrX
	vary := m == 0
	_ = vary
	w.position = b.u16("position")
	w.positionSet = true
	w.datatype = DataTypeEnum(b.e("datatype", verifE_DataTypeEnum, vary))
	w.datatypeSet = true
	return w
}
func verifEq_srcAddrX(a, w srcAddrX) bool {
	r := true
	r = verifAnd(r, a.position == w.position)
	r = verifAnd(r, a.positionSet == w.positionSet)
	r = verifAnd(r, a.datatype == w.datatype)
	r = verifAnd(r, a.datatypeSet == w.datatypeSet)
	return r
}

const verifModes_srcAddrY = 1

// srcAddrY: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_srcAddrY(b *verifB, m int) srcAddrY {
	var w srcAddrY
	vary := m == 0
	_ = vary
	w.position = b.u16("position")
	w.positionSet = true
	w.datatype = DataTypeEnum(b.e("datatype", verifE_DataTypeEnum, vary))
	w.datatypeSet = true
	return w
}
func verifEq_srcAddrY(a, w srcAddrY) bool {
	r := true
	r = verifAnd(r, a.position == w.position)
	r = verifAnd(r, a.positionSet == w.positionSet)
	r = verifAnd(r, a.datatype == w.datatype)
	r = verifAnd(r, a.datatypeSet == w.datatypeSet)
	return r
}

const verifModes_srcAddrZ = 1

// srcAddrZ: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_srcAddrZ(b *verifB, m int) srcAddrZ {
	var w srcAddrZ
	vary := m == 0
	_ = vary
	w.position = b.u16("position")
	w.positionSet = true
	w.datatype = DataTypeEnum(b.e("datatype", verifE_DataTypeEnum, vary))
	w.datatypeSet = true
	return w
}
func verifEq_srcAddrZ(a, w srcAddrZ) bool {
	r := true
	r = verifAnd(r, a.position == w.position)
	r = verifAnd(r, a.positionSet == w.positionSet)
	r = verifAnd(r, a.datatype == w.datatype)
	r = verifAnd(r, a.datatypeSet == w.datatypeSet)
	return r
}

const verifModes_staticAddressOffsetsKeyword = 1

// staticAddressOffsetsKeyword: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_staticAddressOffsetsKeyword(b *verifB, m int) staticAddressOffsetsKeyword {
	var w staticAddressOffsetsKeyword
	vary := m == 0
	_ = vary
	w.value, w.valueSet = true, true
	return w
}
func verifEq_staticAddressOffsetsKeyword(a, w staticAddressOffsetsKeyword) bool {
	r := true
	r = verifAnd(r, a.value == w.value)
	r = verifAnd(r, a.valueSet == w.valueSet)
	return r
}

const verifModes_staticRecordLayoutKeyword = 1

// staticRecordLayoutKeyword: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_staticRecordLayoutKeyword(b *verifB, m int) staticRecordLayoutKeyword {
	var w staticRecordLayoutKeyword
	vary := m == 0
	_ = vary
	w.value, w.valueSet = true, true
	return w
}
func verifEq_staticRecordLayoutKeyword(a, w staticRecordLayoutKeyword) bool {
	r := true
	r = verifAnd(r, a.value == w.value)
	r = verifAnd(r, a.valueSet == w.valueSet)
	return r
}
