// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_refGroup = 1

// refGroup: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_refGroup(b *verifB, m int) refGroup {
	var w refGroup
	vary := m == 0
	_ = vary
	for i, n := 0, b.listLen(vary); i < n; i++ {
		w.identifier = append(w.identifier, b.s("identifier"))
	}
	w.identifierSet = true
	b.t("/end REF_GROUP")
	return w
}
func verifEq_refGroup(a, w refGroup) bool {
	r := true
	r = verifAnd(r, len(a.identifier) == len(w.identifier))
	for i := 0; i < len(a.identifier) && i < len(w.identifier); i++ {
		r = verifAnd(r, a.identifier[i] == w.identifier[i])
	}
	r = verifAnd(r, a.identifierSet == w.identifierSet)
	return r
}

const verifModes_userRights = 5
const verifPairs_userRights = 4

// userRights: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_userRights(b *verifB, m int) userRights {
	var w userRights
	vary := m == 0
	_ = vary
	w.userLevelId = b.s("userLevelId")
	w.userLevelIdSet = true
	k := m - 1
	all, rev := m == verifModes_userRights-2, m == verifModes_userRights-1
	pair, first, second, nested := m >= verifModes_userRights, -1, -1, m-verifModes_userRights-4
	if pair && nested < 0 {
		first, second = (m-verifModes_userRights)/2, (m-verifModes_userRights)%2
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 2; i++ {
		o := i
		if rev {
			o = 1 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("READ_ONLY")
				w.readOnly = verifMk_readOnlyKeyword(b, sub)
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 2 {
				sub := k - 1
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("/begin REF_GROUP")
				w.refGroup = append(w.refGroup, verifMk_refGroup(b, sub))
				for i, n := 1, b.times(sub == 0); i < n; i++ {
					b.t("/begin REF_GROUP")
					w.refGroup = append(w.refGroup, verifMk_refGroup(b, -1))
				}
			}
		}
	}
	b.t("/end USER_RIGHTS")
	return w
}
func verifEq_userRights(a, w userRights) bool {
	r := true
	r = verifAnd(r, a.userLevelId == w.userLevelId)
	r = verifAnd(r, a.userLevelIdSet == w.userLevelIdSet)
	r = verifAnd(r, verifEq_readOnlyKeyword(a.readOnly, w.readOnly))
	r = verifAnd(r, len(a.refGroup) == len(w.refGroup))
	for i := 0; i < len(a.refGroup) && i < len(w.refGroup); i++ {
		r = verifAnd(r, verifEq_refGroup(a.refGroup[i], w.refGroup[i]))
	}
	return r
}
