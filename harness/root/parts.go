package calibrationReader

import (
	"github.com/asap2Go/calibrationReader/a2l"
)

// Components of a deposit structure that hold one number.

type verifPart struct {
	name string
	set  func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16)
	get  func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error)
	val  func(cv *CharacteristicValues) int64
}

var verifParts = []verifPart{
	{"DistOpX", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.DistOpX.Datatype, rl.DistOpX.DatatypeSet, rl.DistOpX.Position, rl.DistOpX.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getDistOpX(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.distOpXValue }},
	{"DistOpY", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.DistOpY.Datatype, rl.DistOpY.DatatypeSet, rl.DistOpY.Position, rl.DistOpY.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getDistOpY(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.distOpYValue }},
	{"DistOpZ", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.DistOpZ.Datatype, rl.DistOpZ.DatatypeSet, rl.DistOpZ.Position, rl.DistOpZ.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getDistOpZ(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.distOpZValue }},
	{"DistOp4", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.DistOp4.Datatype, rl.DistOp4.DatatypeSet, rl.DistOp4.Position, rl.DistOp4.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getDistOp4(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.distOp4Value }},
	{"DistOp5", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.DistOp5.Datatype, rl.DistOp5.DatatypeSet, rl.DistOp5.Position, rl.DistOp5.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getDistOp5(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.distOp5Value }},
	{"OffsetX", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.OffsetX.Datatype, rl.OffsetX.DatatypeSet, rl.OffsetX.Position, rl.OffsetX.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getOffsetX(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.offsetXValue }},
	{"OffsetY", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.OffsetY.Datatype, rl.OffsetY.DatatypeSet, rl.OffsetY.Position, rl.OffsetY.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getOffsetY(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.offsetYValue }},
	{"OffsetZ", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.OffsetZ.Datatype, rl.OffsetZ.DatatypeSet, rl.OffsetZ.Position, rl.OffsetZ.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getOffsetZ(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.offsetZValue }},
	{"Offset4", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.Offset4.Datatype, rl.Offset4.DatatypeSet, rl.Offset4.Position, rl.Offset4.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getOffset4(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.offset4Value }},
	{"Offset5", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.Offset5.Datatype, rl.Offset5.DatatypeSet, rl.Offset5.Position, rl.Offset5.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getOffset5(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.offset5Value }},
	{"ShiftOpX", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.ShiftOpX.Datatype, rl.ShiftOpX.DatatypeSet, rl.ShiftOpX.Position, rl.ShiftOpX.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getShiftOpX(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.shiftOpXValue }},
	{"ShiftOpY", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.ShiftOpY.Datatype, rl.ShiftOpY.DatatypeSet, rl.ShiftOpY.Position, rl.ShiftOpY.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getShiftOpY(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.shiftOpYValue }},
	{"ShiftOpZ", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.ShiftOpZ.Datatype, rl.ShiftOpZ.DatatypeSet, rl.ShiftOpZ.Position, rl.ShiftOpZ.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getShiftOpZ(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.shiftOpZValue }},
	{"ShiftOp4", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.ShiftOp4.Datatype, rl.ShiftOp4.DatatypeSet, rl.ShiftOp4.Position, rl.ShiftOp4.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getShiftOp4(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.shiftOp4Value }},
	{"ShiftOp5", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.ShiftOp5.Datatype, rl.ShiftOp5.DatatypeSet, rl.ShiftOp5.Position, rl.ShiftOp5.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getShiftOp5(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.shiftOp5Value }},
	{"NoAxisPtsX", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.NoAxisPtsX.Datatype, rl.NoAxisPtsX.DatatypeSet, rl.NoAxisPtsX.Position, rl.NoAxisPtsX.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getNoAxisPtsX(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.noAxisPtsXValue }},
	{"NoAxisPtsY", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.NoAxisPtsY.Datatype, rl.NoAxisPtsY.DatatypeSet, rl.NoAxisPtsY.Position, rl.NoAxisPtsY.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getNoAxisPtsY(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.noAxisPtsYValue }},
	{"NoAxisPtsZ", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.NoAxisPtsZ.Datatype, rl.NoAxisPtsZ.DatatypeSet, rl.NoAxisPtsZ.Position, rl.NoAxisPtsZ.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getNoAxisPtsZ(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.noAxisPtsZValue }},
	{"NoAxisPts4", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.NoAxisPts4.Datatype, rl.NoAxisPts4.DatatypeSet, rl.NoAxisPts4.Position, rl.NoAxisPts4.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getNoAxisPts4(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.noAxisPts4Value }},
	{"NoAxisPts5", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.NoAxisPts5.Datatype, rl.NoAxisPts5.DatatypeSet, rl.NoAxisPts5.Position, rl.NoAxisPts5.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getNoAxisPts5(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.noAxisPts5Value }},
	{"NoRescaleX", func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, set bool, pos uint16) {
		rl.NoRescaleX.Datatype, rl.NoRescaleX.DatatypeSet, rl.NoRescaleX.Position, rl.NoRescaleX.PositionSet = t, set, pos, true
	}, func(cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) (int64, error) {
		return cd.getNoRescaleX(rl, cur)
	}, func(cv *CharacteristicValues) int64 { return cv.noRescaleXValue }},
}

// Axis points.

type verifAxis struct {
	set   func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, pos uint16)
	fix   func(rl *a2l.RecordLayout, n uint16)
	count func(cv *CharacteristicValues, n int64)
	get   func(cv *CharacteristicValues, cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) ([]float64, error)
	val   func(cv *CharacteristicValues) []float64
}

var verifAxes = []verifAxis{
	{func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, pos uint16) {
		rl.AxisPtsX.Datatype, rl.AxisPtsX.DatatypeSet, rl.AxisPtsX.Position, rl.AxisPtsX.PositionSet = t, true, pos, true
	}, func(rl *a2l.RecordLayout, n uint16) {
		rl.FixNoAxisPtsX.NumberOfAxisPoints, rl.FixNoAxisPtsX.NumberOfAxisPointsSet = n, true
	}, func(cv *CharacteristicValues, n int64) { cv.noAxisPtsXValue = n },
		func(cv *CharacteristicValues, cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) ([]float64, error) {
			return cv.getAxisPointsX(cd, rl, cur)
		}, func(cv *CharacteristicValues) []float64 { return cv.AxisXValues }},
	{func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, pos uint16) {
		rl.AxisPtsY.Datatype, rl.AxisPtsY.DatatypeSet, rl.AxisPtsY.Position, rl.AxisPtsY.PositionSet = t, true, pos, true
	}, func(rl *a2l.RecordLayout, n uint16) {
		rl.FixNoAxisPtsY.NumberOfAxisPoints, rl.FixNoAxisPtsY.NumberOfAxisPointsSet = n, true
	}, func(cv *CharacteristicValues, n int64) { cv.noAxisPtsYValue = n },
		func(cv *CharacteristicValues, cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) ([]float64, error) {
			return cv.getAxisPointsY(cd, rl, cur)
		}, func(cv *CharacteristicValues) []float64 { return cv.AxisYValues }},
	{func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, pos uint16) {
		rl.AxisPtsZ.Datatype, rl.AxisPtsZ.DatatypeSet, rl.AxisPtsZ.Position, rl.AxisPtsZ.PositionSet = t, true, pos, true
	}, func(rl *a2l.RecordLayout, n uint16) {
		rl.FixNoAxisPtsZ.NumberOfAxisPoints, rl.FixNoAxisPtsZ.NumberOfAxisPointsSet = n, true
	}, func(cv *CharacteristicValues, n int64) { cv.noAxisPtsZValue = n },
		func(cv *CharacteristicValues, cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) ([]float64, error) {
			return cv.getAxisPointsZ(cd, rl, cur)
		}, func(cv *CharacteristicValues) []float64 { return cv.AxisZValues }},
	{func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, pos uint16) {
		rl.AxisPts4.Datatype, rl.AxisPts4.DatatypeSet, rl.AxisPts4.Position, rl.AxisPts4.PositionSet = t, true, pos, true
	}, func(rl *a2l.RecordLayout, n uint16) {
		rl.FixNoAxisPts4.NumberOfAxisPoints, rl.FixNoAxisPts4.NumberOfAxisPointsSet = n, true
	}, func(cv *CharacteristicValues, n int64) { cv.noAxisPts4Value = n },
		func(cv *CharacteristicValues, cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) ([]float64, error) {
			return cv.getAxisPoints4(cd, rl, cur)
		}, func(cv *CharacteristicValues) []float64 { return cv.Axis4Values }},
	{func(rl *a2l.RecordLayout, t a2l.DataTypeEnum, pos uint16) {
		rl.AxisPts5.Datatype, rl.AxisPts5.DatatypeSet, rl.AxisPts5.Position, rl.AxisPts5.PositionSet = t, true, pos, true
	}, func(rl *a2l.RecordLayout, n uint16) {
		rl.FixNoAxisPts5.NumberOfAxisPoints, rl.FixNoAxisPts5.NumberOfAxisPointsSet = n, true
	}, func(cv *CharacteristicValues, n int64) { cv.noAxisPts5Value = n },
		func(cv *CharacteristicValues, cd *CalibrationData, rl *a2l.RecordLayout, cur *uint32) ([]float64, error) {
			return cv.getAxisPoints5(cd, rl, cur)
		}, func(cv *CharacteristicValues) []float64 { return cv.Axis5Values }},
}
