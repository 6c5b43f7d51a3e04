// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_asap2Version = 1

// asap2Version: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_asap2Version(b *verifB, m int) asap2Version {
	var w asap2Version
	vary := m == 0
	_ = vary
	w.versionNo = b.u16("versionNo")
	w.versionNoSet = true
	w.upgradeNo = b.u16("upgradeNo")
	w.upgradeNoSet = true
	return w
}
func verifEq_asap2Version(a, w asap2Version) bool {
	r := true
	r = verifAnd(r, a.versionNo == w.versionNo)
	r = verifAnd(r, a.versionNoSet == w.versionNoSet)
	r = verifAnd(r, a.upgradeNo == w.upgradeNo)
	r = verifAnd(r, a.upgradeNoSet == w.upgradeNoSet)
	return r
}
