package a2l

import "github.com/x448/float16"

// C22: name, width and kind of every datatype agree with its keyword.
//
//verif:run C22 quick reach=width
func VerifH_datatypes() {
	type row struct {
		kw   string
		c    DataTypeEnum
		bits uint16
		kind interface{}
	}
	rows := []row{
		{"UBYTE", UBYTE, 8, uint8(0)},
		{"SBYTE", SBYTE, 8, int8(0)},
		{"UWORD", UWORD, 16, uint16(0)},
		{"SWORD", SWORD, 16, int16(0)},
		{"ULONG", ULONG, 32, uint32(0)},
		{"SLONG", SLONG, 32, int32(0)},
		{"A_UINT64", AUint64, 64, uint64(0)},
		{"A_INT64", AInt64, 64, int64(0)},
		{"FLOAT16_IEEE", Float16Ieee, 16, float16.Float16(0)},
		{"FLOAT32_IEEE", Float32Ieee, 32, float32(0)},
		{"FLOAT64_IEEE", Float64Ieee, 64, float64(0)},
	}
	if verifBool("other") {
		t := verifTok("datatype")
		for _, r := range rows {
			verifAssume(t != r.kw)
		}
		d := DataTypeEnum(t)
		verifAssert(d.GetDatatypeLength() == 0, "an unknown datatype has a width")
		verifAssert(d.GetType() == nil, "an unknown datatype has a kind")
		return
	}
	r := rows[verifChoose("row", len(rows))]
	tg := newTokenGenerator()
	tokenList = []string{r.kw}
	d, err := parseDataTypeEnum(&tg)
	verifAssert(err == nil, "a datatype is refused")
	verifAssert(d == r.c, "a datatype is read as another one")
	verifAssert(d.String() == r.kw, "a datatype prints as another one")
	verifAssert(d.GetDatatypeLength() == r.bits, "the width of a datatype is wrong")
	verifAssert(d.GetType() == r.kind, "the kind of a datatype is wrong")
	verifReach("width")
}

// C22: data sizes and byte orders.
//
//verif:run C22 quick reach=size,order
func VerifH_sizes() {
	tg := newTokenGenerator()
	if verifBool("size") {
		i := verifChoose("row", 3)
		tokenList = []string{[]string{"BYTE", "WORD", "LONG"}[i]}
		d, err := parseDataSizeEnum(&tg)
		verifAssert(err == nil, "a data size is refused")
		verifAssert(d == []DataSizeEnum{BYTE, WORD, LONG}[i], "a data size is read as another one")
		verifAssert(d.GetDataSizeLength() == []uint16{8, 16, 32}[i], "the width of a data size is wrong")
		verifReach("size")
		return
	}
	kws := []string{"LITTLE_ENDIAN", "BIG_ENDIAN", "MSB_LAST", "MSB_FIRST", "MSB_FIRST_MSW_LAST", "MSB_LAST_MSW_FIRST"}
	i := verifChoose("row", len(kws))
	tokenList = []string{kws[i]}
	o, err := parseByteOrderEnum(&tg)
	verifAssert(err == nil, "a byte order is refused")
	verifAssert(o == []ByteOrderEnum{LittleEndian, BigEndian, MsbLast, MsbFirst, MsbFirstMswLast, MsbLastMswFirst}[i], "a byte order is read as another one")
	verifAssert(o.String() == kws[i], "a byte order prints as another one")
	verifReach("order")
}
