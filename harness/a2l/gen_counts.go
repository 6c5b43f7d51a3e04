// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

// verifCounts are the numbers of objects per kind.
func verifCounts(m *Module) [21]int {
	return [21]int{len(m.AxisPts), len(m.blobs), len(m.Characteristics), len(m.CompuMethods), len(m.CompuTabs), len(m.CompuVTabs), len(m.CompuVTabRanges), len(m.Functions), len(m.Groups), len(m.ifData), len(m.instances), len(m.Measurements), len(m.RecordLayouts), len(m.transformers), len(m.typeDefAxis), len(m.typeDefBlobs), len(m.typeDefCharacteristics), len(m.typeDefMeasurements), len(m.typeDefStructures), len(m.Units), len(m.userRights)}
}
