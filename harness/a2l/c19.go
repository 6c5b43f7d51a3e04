package a2l

// verifComp is a component of a record layout: its name, its keyword and the words behind position and type.
type verifComp struct {
	name, kw string
	rest     []string
	size     bool // a data size stands in place of the datatype
}

func verifComps() []verifComp {
	var l []verifComp
	axes := func(name, kw string, rest ...string) {
		for _, a := range []string{"X", "Y", "Z", "4", "5"} {
			l = append(l, verifComp{name + a, kw + "_" + a, rest, false})
		}
	}
	one := func(name, kw string, rest ...string) {
		l = append(l, verifComp{name, kw, rest, false})
	}
	axes("AxisPts", "AXIS_PTS", "INDEX_INCR", "DIRECT")
	one("AxisRescaleX", "AXIS_RESCALE_X", "3", "INDEX_INCR", "DIRECT")
	axes("DistOp", "DIST_OP")
	one("FncValues", "FNC_VALUES", "COLUMN_DIR", "DIRECT")
	one("Identification", "IDENTIFICATION")
	axes("NoAxisPts", "NO_AXIS_PTS")
	one("NoRescaleX", "NO_RESCALE_X")
	axes("Offset", "OFFSET")
	l = append(l, verifComp{"Reserved", "RESERVED", nil, true})
	one("RipAddrW", "RIP_ADDR_W")
	axes("RipAddr", "RIP_ADDR")
	axes("ShiftOp", "SHIFT_OP")
	axes("SrcAddr", "SRC_ADDR")
	return l
}

// fixed adds the options of a record layout that have no position.
func (b *verifB) fixed() {
	for i, a := range []string{"X", "Y", "Z", "4", "5"} {
		b.t("FIX_NO_AXIS_PTS_" + a)
		b.fixed16(i + 2)
	}
	b.t("ALIGNMENT_BYTE")
	b.fixed16(1)
	b.t("STATIC_RECORD_LAYOUT")
}

func (b *verifB) comp(c verifComp, pos uint16, typ string) {
	b.t(c.kw)
	b.v(verifNumTok("pos"+c.name, int64(pos)))
	b.t(typ)
	for _, r := range c.rest {
		b.t(r)
	}
}

var verifDatatypes = []DataTypeEnum{UBYTE, SBYTE, UWORD, SWORD, ULONG, SLONG, AUint64, AInt64, Float16Ieee, Float32Ieee, Float64Ieee}

func (b *verifB) layout() *RecordLayout {
	b.t("/end RECORD_LAYOUT")
	m := b.parseOne(0)
	rl, ok := m.RecordLayouts[b.tok[10]]
	verifAssert(ok, "the record layout is missing")
	return &rl
}

func (b *verifB) layoutBegin() {
	b.module()
	b.t("/begin RECORD_LAYOUT")
	b.s("layout")
}

// C19: a single component: its position, its datatype, and none of another component.
//
//verif:run C19,C24 quick reach=one
func VerifH_onecomp() {
	b := verifNew()
	b.layoutBegin()
	l := verifComps()
	i := verifChoose("comp", len(l)+1)
	pos := verifU16("pos")
	typ := string(verifDatatypes[verifChoose("type", len(verifDatatypes))])
	if verifBool("fixed") {
		b.fixed()
	}
	if i < len(l) {
		if l[i].size {
			typ = "WORD"
		}
		b.comp(l[i], pos, typ)
	}
	rl := b.layout()
	t, err := rl.GetRecordLayoutRelativePositions()
	verifAssert(err == nil, "the positions of a valid record layout are refused")
	if i == len(l) {
		verifAssert(len(t) == 0, "a component is reported that is not there")
	} else {
		verifAssert(len(t) == 1, "a component is missing or there is one too many")
		verifAssert(t[pos] == l[i].name, "a component is not reported under its position")
	}
	for k := range l {
		d, err := rl.GetDatatypeByFieldName(l[k].name)
		if k == i && !l[k].size {
			verifAssert(err == nil, "the datatype of a component is refused")
			verifAssert(string(d) == typ, "the datatype of a component is wrong")
		} else {
			verifAssert(err != nil, "a datatype is reported for a component that is not there")
		}
	}
	w := verifTok("name")
	for k := range l {
		verifAssume(w != l[k].name)
	}
	_, err = rl.GetDatatypeByFieldName(w)
	verifAssert(err != nil, "a datatype is reported for a name that is no component")
	verifReach("one")
}

// C19: n different components in any order: every one under its position with its datatype; equal positions are an error.
//
//verif:run C19,C17,C24 quick n=2 reach=distinct,equal
//verif:run C19,C17,C24 thorough n=3 paths=1000000 timeout=3000 reach=distinct,equal
func VerifH_comps() {
	n := verifParam("n")
	b := verifNew()
	b.layoutBegin()
	l := verifComps()
	var at []int
	var pos []uint16
	var typ []string
	for len(at) < n {
		i := verifChoose("comp", len(l))
		for _, k := range at {
			verifAssume(i != k)
		}
		p := verifU16("p")
		ty := string(verifDatatypes[(i+3*len(at))%len(verifDatatypes)])
		if l[i].size {
			ty = "LONG"
		}
		at, pos, typ = append(at, i), append(pos, p), append(typ, ty)
		b.comp(l[i], p, ty)
	}
	rl := b.layout()
	t, err := rl.GetRecordLayoutRelativePositions()
	eq := false
	for i := range pos {
		for j := 0; j < i; j++ {
			eq = verifOr(eq, pos[i] == pos[j])
		}
	}
	if eq {
		verifAssert(err != nil, "two components have the same position and there is no error")
		verifReach("equal")
		return
	}
	verifAssert(err == nil, "the positions of a valid record layout are refused")
	verifAssert(len(t) == n, "a component is missing or there is one too many")
	for i, k := range at {
		verifAssert(t[pos[i]] == l[k].name, "a component is not reported under its position")
		if l[k].size {
			continue
		}
		d, err := rl.GetDatatypeByFieldName(l[k].name)
		verifAssert(err == nil, "the datatype of a component is refused")
		verifAssert(string(d) == typ[i], "the datatype of a component is wrong")
	}
	verifReach("distinct")
}

// C19: all components at once.
//
//verif:run C19 quick reach=all
func VerifH_allcomps() {
	b := verifNew()
	b.layoutBegin()
	l := verifComps()
	base := verifU16("base")
	turn := verifChoose("turn", 4)
	var pos []uint16
	for i := range l {
		k := (i*5 + turn*7) % len(l)
		pos = append(pos, uint16(k))
	}
	verifAssume(base < 60000)
	b.fixed()
	for i, c := range l {
		ty := string(verifDatatypes[(i+turn)%len(verifDatatypes)])
		if c.size {
			ty = "BYTE"
		}
		b.comp(c, base+pos[i], ty)
	}
	rl := b.layout()
	t, err := rl.GetRecordLayoutRelativePositions()
	verifAssert(err == nil, "the positions of a valid record layout are refused")
	verifAssert(len(t) == len(l), "a component is missing or there is one too many")
	for i, c := range l {
		verifAssert(t[base+pos[i]] == c.name, "a component is not reported under its position")
		if c.size {
			continue
		}
		d, err := rl.GetDatatypeByFieldName(c.name)
		verifAssert(err == nil, "the datatype of a component is refused")
		verifAssert(string(d) == string(verifDatatypes[(i+turn)%len(verifDatatypes)]), "the datatype of a component is wrong")
	}
	verifReach("all")
}

// C19: layouts of the same name asked one after the other, and one layout asked twice.
//
//verif:run C19 quick reach=asked
func VerifH_compsAgain() {
	l := verifComps()
	name := verifIdent("layout")
	mk := func(i int, pos uint16, typ string) *RecordLayout {
		b := verifNew()
		b.module()
		b.t("/begin RECORD_LAYOUT")
		b.v(name)
		b.comp(l[i], pos, typ)
		return b.layout()
	}
	i := verifChoose("comp", len(l)-1)
	j := i + 1
	if verifBool("same") {
		j = i
	}
	p, q := verifU16("p"), verifU16("q")
	pick := func(i int, s string) string {
		if l[i].size {
			return "WORD"
		}
		return s
	}
	first, second := mk(i, p, pick(i, "SWORD")), mk(j, q, pick(j, "ULONG"))
	ask := func(rl *RecordLayout, i int, pos uint16, typ string) {
		t, err := rl.GetRecordLayoutRelativePositions()
		verifAssert(err == nil, "the positions of a valid record layout are refused")
		verifAssert(len(t) == 1 && t[pos] == l[i].name, "a component is not reported under its position")
		for k := i; k <= j; k++ {
			d, err := rl.GetDatatypeByFieldName(l[k].name)
			if k == i && !l[k].size {
				verifAssert(err == nil && string(d) == typ, "the datatype of a component is wrong")
			} else {
				verifAssert(err != nil, "a datatype is reported for a component that is not there")
			}
		}
	}
	ask(first, i, p, "SWORD")
	ask(second, j, q, "ULONG")
	ask(first, i, p, "SWORD")
	verifReach("asked")
}
