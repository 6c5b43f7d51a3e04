// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_header = 5
const verifPairs_header = 4

// header: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_header(b *verifB, m int) header {
	var w header
	vary := m == 0
	_ = vary
	w.comment = b.s("comment")
	w.commentSet = true
	k := m - 1
	all, rev := m == verifModes_header-2, m == verifModes_header-1
	pair, first, second, nested := m >= verifModes_header, -1, -1, m-verifModes_header-4
	if pair && nested < 0 {
		first, second = (m-verifModes_header)/2, (m-verifModes_header)%2
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 2; i++ {
		o := i
		if rev {
			o = 1 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("PROJECT_NO")
				w.projectNo = verifMk_projectNo(b, sub)
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 2 {
				sub := k - 1
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("VERSION")
				w.version = verifMk_version(b, sub)
			}
		}
	}
	b.t("/end HEADER")
	return w
}
func verifEq_header(a, w header) bool {
	r := true
	r = verifAnd(r, a.comment == w.comment)
	r = verifAnd(r, a.commentSet == w.commentSet)
	r = verifAnd(r, verifEq_projectNo(a.projectNo, w.projectNo))
	r = verifAnd(r, verifEq_version(a.version, w.version))
	return r
}

const verifModes_projectNo = 1

// projectNo: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_projectNo(b *verifB, m int) projectNo {
	var w projectNo
	vary := m == 0
	_ = vary
	w.projectNumber = b.s("projectNumber")
	w.projectNumberSet = true
	return w
}
func verifEq_projectNo(a, w projectNo) bool {
	r := true
	r = verifAnd(r, a.projectNumber == w.projectNumber)
	r = verifAnd(r, a.projectNumberSet == w.projectNumberSet)
	return r
}
