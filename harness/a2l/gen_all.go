// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

// verifAll are the objects of a module.
type verifAll struct {
	a2ml                   []a2ml
	AxisPts                []axisPts
	blobs                  []blob
	Characteristics        []Characteristic
	CompuMethods           []CompuMethod
	CompuTabs              []CompuTab
	CompuVTabs             []CompuVTab
	CompuVTabRanges        []CompuVTabRange
	frame                  []frame
	Functions              []function
	Groups                 []group
	ifData                 []IfData
	instances              []instance
	Measurements           []measurement
	ModCommon              []modCommon
	ModPar                 []modPar
	RecordLayouts          []RecordLayout
	transformers           []transformer
	typeDefAxis            []typeDefAxis
	typeDefBlobs           []typeDefBlob
	typeDefCharacteristics []typeDefCharacteristic
	typeDefMeasurements    []typeDefMeasurement
	typeDefStructures      []typeDefStructure
	Units                  []unit
	userRights             []userRights
	variantCoding          []variantCoding
}

const verifKinds = 26

// add appends an object of a kind to the tokens.
func (x *verifAll) add(b *verifB, kind, m int) {
	switch kind {
	case 0: // a2ml
		b.t("/begin A2ML")
		x.a2ml = append(x.a2ml, verifMk_a2ml(b, m))
	case 1: // axisPts
		b.t("/begin AXIS_PTS")
		x.AxisPts = append(x.AxisPts, verifMk_axisPts(b, m))
	case 2: // blob
		b.t("/begin BLOB")
		x.blobs = append(x.blobs, verifMk_blob(b, m))
	case 3: // Characteristic
		b.t("/begin CHARACTERISTIC")
		x.Characteristics = append(x.Characteristics, verifMk_Characteristic(b, m))
	case 4: // CompuMethod
		b.t("/begin COMPU_METHOD")
		x.CompuMethods = append(x.CompuMethods, verifMk_CompuMethod(b, m))
	case 5: // CompuTab
		b.t("/begin COMPU_TAB")
		x.CompuTabs = append(x.CompuTabs, verifMk_CompuTab(b, m))
	case 6: // CompuVTab
		b.t("/begin COMPU_VTAB")
		x.CompuVTabs = append(x.CompuVTabs, verifMk_CompuVTab(b, m))
	case 7: // CompuVTabRange
		b.t("/begin COMPU_VTAB_RANGE")
		x.CompuVTabRanges = append(x.CompuVTabRanges, verifMk_CompuVTabRange(b, m))
	case 8: // frame
		b.t("/begin FRAME")
		x.frame = append(x.frame, verifMk_frame(b, m))
	case 9: // function
		b.t("/begin FUNCTION")
		x.Functions = append(x.Functions, verifMk_function(b, m))
	case 10: // group
		b.t("/begin GROUP")
		x.Groups = append(x.Groups, verifMk_group(b, m))
	case 11: // IfData
		b.t("/begin IF_DATA")
		x.ifData = append(x.ifData, verifMk_IfData(b, m))
	case 12: // instance
		b.t("/begin INSTANCE")
		x.instances = append(x.instances, verifMk_instance(b, m))
	case 13: // measurement
		b.t("/begin MEASUREMENT")
		x.Measurements = append(x.Measurements, verifMk_measurement(b, m))
	case 14: // modCommon
		b.t("/begin MOD_COMMON")
		x.ModCommon = append(x.ModCommon, verifMk_modCommon(b, m))
	case 15: // modPar
		b.t("/begin MOD_PAR")
		x.ModPar = append(x.ModPar, verifMk_modPar(b, m))
	case 16: // RecordLayout
		b.t("/begin RECORD_LAYOUT")
		x.RecordLayouts = append(x.RecordLayouts, verifMk_RecordLayout(b, m))
	case 17: // transformer
		b.t("/begin TRANSFORMER")
		x.transformers = append(x.transformers, verifMk_transformer(b, m))
	case 18: // typeDefAxis
		b.t("/begin TYPEDEF_AXIS")
		x.typeDefAxis = append(x.typeDefAxis, verifMk_typeDefAxis(b, m))
	case 19: // typeDefBlob
		b.t("/begin TYPEDEF_BLOB")
		x.typeDefBlobs = append(x.typeDefBlobs, verifMk_typeDefBlob(b, m))
	case 20: // typeDefCharacteristic
		b.t("/begin TYPEDEF_CHARACTERISTIC")
		x.typeDefCharacteristics = append(x.typeDefCharacteristics, verifMk_typeDefCharacteristic(b, m))
	case 21: // typeDefMeasurement
		b.t("/begin TYPEDEF_MEASUREMENT")
		x.typeDefMeasurements = append(x.typeDefMeasurements, verifMk_typeDefMeasurement(b, m))
	case 22: // typeDefStructure
		b.t("/begin TYPEDEF_STRUCTURE")
		x.typeDefStructures = append(x.typeDefStructures, verifMk_typeDefStructure(b, m))
	case 23: // unit
		b.t("/begin UNIT")
		x.Units = append(x.Units, verifMk_unit(b, m))
	case 24: // userRights
		b.t("/begin USER_RIGHTS")
		x.userRights = append(x.userRights, verifMk_userRights(b, m))
	case 25: // variantCoding
		b.t("/begin VARIANT_CODING")
		x.variantCoding = append(x.variantCoding, verifMk_variantCoding(b, m))
	}
}

// verifSingle: the module has room for one object of the kind only.
func verifSingle(kind int) bool {
	switch kind {
	case 0, 8, 14, 15, 25:
		return true
	}
	return false
}

// same: the module has exactly these objects.
func (x *verifAll) same(m *Module) {
	verifAssert(verifCounts(m) == [21]int{len(x.AxisPts), len(x.blobs), len(x.Characteristics), len(x.CompuMethods), len(x.CompuTabs), len(x.CompuVTabs), len(x.CompuVTabRanges), len(x.Functions), len(x.Groups), len(x.ifData), len(x.instances), len(x.Measurements), len(x.RecordLayouts), len(x.transformers), len(x.typeDefAxis), len(x.typeDefBlobs), len(x.typeDefCharacteristics), len(x.typeDefMeasurements), len(x.typeDefStructures), len(x.Units), len(x.userRights)}, "an object is missing or there is one too many")
	if n := len(x.a2ml); n > 0 {
		verifAssert(verifEq_a2ml(m.a2ml, x.a2ml[n-1]), "an object differs from the file")
	} else {
		verifAssert(verifEq_a2ml(m.a2ml, a2ml{}), "an object appears that is not in the file")
	}
	for _, w := range x.AxisPts {
		g, ok := m.AxisPts[w.name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_axisPts(g, w), "an object differs from the file")
	}
	for _, w := range x.blobs {
		g, ok := m.blobs[w.name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_blob(g, w), "an object differs from the file")
	}
	for _, w := range x.Characteristics {
		g, ok := m.Characteristics[w.Name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_Characteristic(g, w), "an object differs from the file")
	}
	for _, w := range x.CompuMethods {
		g, ok := m.CompuMethods[w.Name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_CompuMethod(g, w), "an object differs from the file")
	}
	for _, w := range x.CompuTabs {
		g, ok := m.CompuTabs[w.Name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_CompuTab(g, w), "an object differs from the file")
	}
	for _, w := range x.CompuVTabs {
		g, ok := m.CompuVTabs[w.Name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_CompuVTab(g, w), "an object differs from the file")
	}
	for _, w := range x.CompuVTabRanges {
		g, ok := m.CompuVTabRanges[w.Name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_CompuVTabRange(g, w), "an object differs from the file")
	}
	if n := len(x.frame); n > 0 {
		verifAssert(verifEq_frame(m.frame, x.frame[n-1]), "an object differs from the file")
	} else {
		verifAssert(verifEq_frame(m.frame, frame{}), "an object appears that is not in the file")
	}
	for _, w := range x.Functions {
		g, ok := m.Functions[w.name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_function(g, w), "an object differs from the file")
	}
	for _, w := range x.Groups {
		g, ok := m.Groups[w.groupName]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_group(g, w), "an object differs from the file")
	}
	for _, w := range x.ifData {
		g, ok := m.ifData[w.name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_IfData(g, w), "an object differs from the file")
	}
	for _, w := range x.instances {
		g, ok := m.instances[w.name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_instance(g, w), "an object differs from the file")
	}
	for _, w := range x.Measurements {
		g, ok := m.Measurements[w.name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_measurement(g, w), "an object differs from the file")
	}
	if n := len(x.ModCommon); n > 0 {
		verifAssert(verifEq_modCommon(m.ModCommon, x.ModCommon[n-1]), "an object differs from the file")
	} else {
		verifAssert(verifEq_modCommon(m.ModCommon, modCommon{}), "an object appears that is not in the file")
	}
	if n := len(x.ModPar); n > 0 {
		verifAssert(verifEq_modPar(m.ModPar, x.ModPar[n-1]), "an object differs from the file")
	} else {
		verifAssert(verifEq_modPar(m.ModPar, modPar{}), "an object appears that is not in the file")
	}
	for _, w := range x.RecordLayouts {
		g, ok := m.RecordLayouts[w.Name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_RecordLayout(g, w), "an object differs from the file")
	}
	for _, w := range x.transformers {
		g, ok := m.transformers[w.name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_transformer(g, w), "an object differs from the file")
	}
	for _, w := range x.typeDefAxis {
		g, ok := m.typeDefAxis[w.name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_typeDefAxis(g, w), "an object differs from the file")
	}
	for _, w := range x.typeDefBlobs {
		g, ok := m.typeDefBlobs[w.name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_typeDefBlob(g, w), "an object differs from the file")
	}
	for _, w := range x.typeDefCharacteristics {
		g, ok := m.typeDefCharacteristics[w.name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_typeDefCharacteristic(g, w), "an object differs from the file")
	}
	for _, w := range x.typeDefMeasurements {
		g, ok := m.typeDefMeasurements[w.name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_typeDefMeasurement(g, w), "an object differs from the file")
	}
	for _, w := range x.typeDefStructures {
		g, ok := m.typeDefStructures[w.name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_typeDefStructure(g, w), "an object differs from the file")
	}
	for _, w := range x.Units {
		g, ok := m.Units[w.name]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_unit(g, w), "an object differs from the file")
	}
	for _, w := range x.userRights {
		g, ok := m.userRights[w.userLevelId]
		verifAssert(ok, "an object is not found under its name")
		verifAssert(verifEq_userRights(g, w), "an object differs from the file")
	}
	if n := len(x.variantCoding); n > 0 {
		verifAssert(verifEq_variantCoding(m.variantCoding, x.variantCoding[n-1]), "an object differs from the file")
	} else {
		verifAssert(verifEq_variantCoding(m.variantCoding, variantCoding{}), "an object appears that is not in the file")
	}
}
