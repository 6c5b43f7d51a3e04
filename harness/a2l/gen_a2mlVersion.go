// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_a2mlVersion = 1

// a2mlVersion: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_a2mlVersion(b *verifB, m int) a2mlVersion {
	var w a2mlVersion
	vary := m == 0
	_ = vary
	w.VersionNo = b.u16("VersionNo")
	w.versionNoSet = true
	w.UpgradeNo = b.u16("UpgradeNo")
	w.upgradeNoSet = true
	return w
}
func verifEq_a2mlVersion(a, w a2mlVersion) bool {
	r := true
	r = verifAnd(r, a.VersionNo == w.VersionNo)
	r = verifAnd(r, a.versionNoSet == w.versionNoSet)
	r = verifAnd(r, a.UpgradeNo == w.UpgradeNo)
	r = verifAnd(r, a.upgradeNoSet == w.upgradeNoSet)
	return r
}
