// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

const verifModes_dataSize = 1

// dataSize: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_dataSize(b *verifB, m int) dataSize {
	var w dataSize
	vary := m == 0
	_ = vary
	w.size = b.u16("size")
	w.sizeSet = true
	return w
}
func verifEq_dataSize(a, w dataSize) bool {
	r := true
	r = verifAnd(r, a.size == w.size)
	r = verifAnd(r, a.sizeSet == w.sizeSet)
	return r
}

const verifModes_modCommon = 13
const verifPairs_modCommon = 100

// modCommon: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed
func verifMk_modCommon(b *verifB, m int) modCommon {
	var w modCommon
	vary := m == 0
	_ = vary
	w.comment = b.s("comment")
	w.commentSet = true
	k := m - 1
	all, rev := m == verifModes_modCommon-2, m == verifModes_modCommon-1
	pair, first, second, nested := m >= verifModes_modCommon, -1, -1, m-verifModes_modCommon-100
	if pair && nested < 0 {
		first, second = (m-verifModes_modCommon)/10, (m-verifModes_modCommon)%10
		verifAssume(first != second)
	}
	if pair {
		k = -1
	}
	_, _ = nested, second
	for i := 0; i < 10; i++ {
		o := i
		if rev {
			o = 9 - i
		}
		if first >= 0 {
			o = first
			first, second = second, -1
			k = -2
		} else if k == -2 {
			break
		}
		switch o {
		case 0:
			if all || rev || k == -2 || k >= 0 && k < 1 {
				sub := k - 0
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ALIGNMENT_BYTE")
				w.AlignmentByte = verifMk_alignmentByte(b, sub)
			}
		case 1:
			if all || rev || k == -2 || k >= 1 && k < 2 {
				sub := k - 1
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ALIGNMENT_FLOAT16_IEEE")
				w.AlignmentFloat16Ieee = verifMk_alignmentFloat16Ieee(b, sub)
			}
		case 2:
			if all || rev || k == -2 || k >= 2 && k < 3 {
				sub := k - 2
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ALIGNMENT_FLOAT32_IEEE")
				w.AlignmentFloat32Ieee = verifMk_alignmentFloat32Ieee(b, sub)
			}
		case 3:
			if all || rev || k == -2 || k >= 3 && k < 4 {
				sub := k - 3
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ALIGNMENT_FLOAT64_IEEE")
				w.AlignmentFloat64Ieee = verifMk_alignmentFloat64Ieee(b, sub)
			}
		case 4:
			if all || rev || k == -2 || k >= 4 && k < 5 {
				sub := k - 4
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ALIGNMENT_INT64")
				w.AlignmentInt64 = verifMk_alignmentInt64(b, sub)
			}
		case 5:
			if all || rev || k == -2 || k >= 5 && k < 6 {
				sub := k - 5
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ALIGNMENT_LONG")
				w.AlignmentLong = verifMk_alignmentLong(b, sub)
			}
		case 6:
			if all || rev || k == -2 || k >= 6 && k < 7 {
				sub := k - 6
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("ALIGNMENT_WORD")
				w.AlignmentWord = verifMk_alignmentWord(b, sub)
			}
		case 7:
			if all || rev || k == -2 || k >= 7 && k < 8 {
				sub := k - 7
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("BYTE_ORDER")
				w.ByteOrder = verifMk_ByteOrder(b, sub)
			}
		case 8:
			if all || rev || k == -2 || k >= 8 && k < 9 {
				sub := k - 8
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DATA_SIZE")
				w.dataSize = verifMk_dataSize(b, sub)
			}
		case 9:
			if all || rev || k == -2 || k >= 9 && k < 10 {
				sub := k - 9
				if all || rev {
					sub = -1
				} else if pair {
					sub = -1
				}
				_ = sub
				b.t("DEPOSIT")
				w.deposit = verifMk_deposit(b, sub)
			}
		}
	}
	b.t("/end MOD_COMMON")
	return w
}
func verifEq_modCommon(a, w modCommon) bool {
	r := true
	r = verifAnd(r, a.comment == w.comment)
	r = verifAnd(r, a.commentSet == w.commentSet)
	r = verifAnd(r, verifEq_alignmentByte(a.AlignmentByte, w.AlignmentByte))
	r = verifAnd(r, verifEq_alignmentFloat16Ieee(a.AlignmentFloat16Ieee, w.AlignmentFloat16Ieee))
	r = verifAnd(r, verifEq_alignmentFloat32Ieee(a.AlignmentFloat32Ieee, w.AlignmentFloat32Ieee))
	r = verifAnd(r, verifEq_alignmentFloat64Ieee(a.AlignmentFloat64Ieee, w.AlignmentFloat64Ieee))
	r = verifAnd(r, verifEq_alignmentInt64(a.AlignmentInt64, w.AlignmentInt64))
	r = verifAnd(r, verifEq_alignmentLong(a.AlignmentLong, w.AlignmentLong))
	r = verifAnd(r, verifEq_alignmentWord(a.AlignmentWord, w.AlignmentWord))
	r = verifAnd(r, verifEq_ByteOrder(a.ByteOrder, w.ByteOrder))
	r = verifAnd(r, verifEq_dataSize(a.dataSize, w.dataSize))
	r = verifAnd(r, verifEq_deposit(a.deposit, w.deposit))
	return r
}
