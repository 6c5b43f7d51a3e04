package a2l

import (
	"strings"
)

// verifB collects the tokens of a file together with the positions of its numbers and enumerations.
type verifB struct {
	tok   []string
	kw    []bool // the token is a fixed word
	pos   []verifPos
	still bool // lists have one length

	long, many int // lists of this length, options this often, with fixed words behind the first few

	name string // the next identifier, if not empty

	// the number or text with this ordinal is written in another way
	other, variant, count int
}

type verifPos struct {
	at   int
	kind string // u16, u32, i16, i32, f or e
	ok   []string
}

func verifNew() *verifB { return &verifB{} }

func (b *verifB) t(s string) {
	b.tok = append(b.tok, s)
	b.kw = append(b.kw, true)
}

func (b *verifB) v(s string) {
	b.tok = append(b.tok, s)
	b.kw = append(b.kw, false)
}

func (b *verifB) num(kind string, tok string, ok []string) {
	b.pos = append(b.pos, verifPos{len(b.tok), kind, ok})
	b.v(tok)
}

// alt reports whether the next number or text is the one to be written in another way.
func (b *verifB) alt() bool {
	b.count++
	return b.count == b.other
}

var verifTexts = []string{"A.b[3]_x", "ABC", "aBc", "x", "_", "0x1F", "-12", "1.50", "Gr\u00f6\u00dfe", "\"\"", "\" \"",
	"\"Some TEXT, with 0x1F and -1.50\"", "\"a /begin UNIT b\"", "\"/end\"", "\"/* x */\"", "\"//\"",
	"a_very_long_name_of_many_characters_0123456789_a_very_long_name_of_many_characters_0123456789_a_very_long_name_of_many_characters_0123456789"}

// s is any text or identifier.
func (b *verifB) s(name string) string {
	if v := b.name; v != "" {
		b.name = ""
		b.v(v)
		return v
	}
	if b.alt() {
		v := verifTexts[b.variant%len(verifTexts)]
		b.v(v)
		return v
	}
	if b.long+b.many > 0 && b.count > 12 {
		v := "n" + verifDecimal(b.count)
		b.v(v)
		return v
	}
	v := verifIdent(name)
	b.v(v)
	return v
}

// c is a concrete text.
func (b *verifB) c() string {
	v := "\"text " + string(rune('a'+len(b.tok)%20)) + "\""
	b.t(v)
	return v
}

func (b *verifB) u16(name string) uint16 {
	if b.alt() {
		i := b.variant % 3
		b.num("u16", []string{"0019", "00", "065535"}[i], nil)
		return []uint16{19, 0, 65535}[i]
	}
	v := verifU16(name)
	b.num("u16", verifNumTok(name+"T", int64(v)), nil)
	return v
}

func (b *verifB) u32(name string) uint32 {
	if b.alt() {
		i := b.variant % 3
		b.num("u32", []string{"0019", "00", "04294967295"}[i], nil)
		return []uint32{19, 0, 4294967295}[i]
	}
	v := verifU32(name)
	b.num("u32", verifNumTok(name+"T", int64(v)), nil)
	return v
}

func (b *verifB) i16(name string) int16 {
	if b.alt() {
		i := b.variant % 4
		b.num("i16", []string{"0019", "-0019", "+0019", "-032768"}[i], nil)
		return []int16{19, -19, 19, -32768}[i]
	}
	v := int16(verifU16(name))
	b.num("i16", verifNumTok(name+"T", int64(v)), nil)
	return v
}

func (b *verifB) i32(name string) int32 {
	if b.alt() {
		i := b.variant % 4
		b.num("i32", []string{"0019", "-0019", "+0019", "-02147483648"}[i], nil)
		return []int32{19, -19, 19, -2147483648}[i]
	}
	v := int32(verifU32(name))
	b.num("i32", verifNumTok(name+"T", int64(v)), nil)
	return v
}

func (b *verifB) f(name string) float64 {
	if b.alt() {
		i := b.variant % 10
		b.num("f", []string{"0019", "-0019.50", "+1.5", "-1.250E+02", "5e-3", "1E3", ".5", "4.", "9007199254740993", "-0"}[i], nil)
		return []float64{19, -19.5, 1.5, -125, 0.005, 1000, 0.5, 4, 9007199254740992, 0}[i]
	}
	if b.long > 0 && b.count > 12 {
		b.num("f", verifDecimal(b.count)+".5", nil)
		return float64(b.count) + 0.5
	}
	v := verifF64(name)
	verifAssume(v == v)
	b.num("f", verifFloatTok(name+"T", v), nil)
	return v
}

func verifDecimal(n int) string {
	v := string(rune('0' + n%10))
	for n > 9 {
		n /= 10
		v = string(rune('0'+n%10)) + v
	}
	return v
}

// fixed16 is the decimal text of a small number.
func (b *verifB) fixed16(n int) {
	v := verifDecimal(n)
	if b.alt() {
		v = "00" + v
	}
	b.num("u16", v, nil)
}

// e is a keyword of an enumeration: every one, or one that depends on the place.
func (b *verifB) e(name string, ok []string, vary bool) string {
	i := len(b.tok) % len(ok)
	if vary {
		i = verifChoose(name, len(ok))
	}
	b.num("e", ok[i], ok)
	return ok[i]
}

// listLen is the length of a list.
func (b *verifB) listLen(vary bool) int {
	if b.long > 0 {
		return b.long
	}
	if b.long < 0 {
		return 0
	}
	if vary && !b.still {
		return verifLens[verifChoose("list", len(verifLens))]
	}
	return 2
}

var verifLens = []int{1, 2, 3, 4, 6, 13}

// times is how often an option that may be repeated occurs.
func (b *verifB) times(vary bool) int {
	if b.many > 0 {
		return b.many
	}
	if vary && !b.still {
		return verifTimes[verifChoose("times", len(verifTimes))]
	}
	return 2
}

var verifTimes = []int{1, 2, 3, 7}

// module opens the project and its module.
func (b *verifB) module() {
	b.t("ASAP2_VERSION")
	b.t("1")
	b.t("71")
	b.t("/begin PROJECT")
	b.s("project")
	b.s("projectText")
	b.t("/begin MODULE")
	b.s("module")
	b.s("moduleText")
}

func (b *verifB) end() {
	b.t("/end MODULE")
	b.t("/end PROJECT")
	b.t(emptyToken)
}

// read parses the tokens by one worker (par 0) or par workers.
func (b *verifB) read(par int) (A2L, error) {
	tokenList = b.tok
	useMultithreading = par > 0
	if par > 0 {
		numProc = par
	}
	tg := newTokenGenerator()
	return parseA2l(&tg)
}

var verifZeroCounts = verifCounts(&Module{})

// parseOne ends the module and returns it.
func (b *verifB) parseOne(par int) *Module {
	b.end()
	a, err := b.read(par)
	verifAssert(err == nil, "a valid file is refused")
	verifAssert(len(a.Project.Modules) == 1, "the module is missing or there is one too many")
	verifAssert(a.Project.Name == b.tok[4] && a.Project.longIdentifier == b.tok[5], "the project differs from the file")
	m := &a.Project.Modules[0]
	verifAssert(m.Name == b.tok[7] && m.longIdentifier == b.tok[8], "the module's name differs from the file")
	return m
}

func (b *verifB) rejected(par int, msg string) {
	b.end()
	_, err := b.read(par)
	verifAssert(err != nil, msg)
}

func verifAllMode(modes int) int {
	if modes == 1 {
		return -1
	}
	return modes - 2
}

// spoil replaces one number or enumeration by something malformed.
func (b *verifB) spoil() bool {
	if len(b.pos) == 0 {
		return false
	}
	p := b.pos[verifChoose("spoil", len(b.pos))]
	bad := verifIdent("bad")
	switch p.kind {
	case "e":
		if verifBool("known") {
			// a word that means something elsewhere
			bad = verifWord("bad2")
			for _, k := range p.ok {
				verifAssume(bad != k)
			}
			for _, k := range verifKeywords {
				verifAssume(bad != k)
			}
		}
	case "f":
	default:
		switch verifChoose("how", 3) {
		case 1:
			lo, hi := int64(0), int64(0)
			switch p.kind {
			case "u16":
				hi = 1<<16 - 1
			case "u32":
				hi = 1<<32 - 1
			case "i16":
				lo, hi = -1<<15, 1<<15-1
			case "i32":
				lo, hi = -1<<31, 1<<31-1
			}
			v := int64(verifU64("out"))
			verifAssume(verifOr(v < lo, v > hi))
			bad = verifNumTok("bad3", v)
		case 2:
			f := verifF64("frac")
			verifAssume(f == f)
			bad = verifFloatTok("bad4", f)
		}
	}
	b.tok[p.at] = bad
	return true
}

// spoilEnum replaces one enumeration keyword by any other token that does not begin or
// end an object or an option.
func (b *verifB) spoilEnum() bool {
	var ps []verifPos
	for _, p := range b.pos {
		if p.kind == "e" {
			ps = append(ps, p)
		}
	}
	if len(ps) == 0 {
		return false
	}
	p := ps[verifChoose("spoil", len(ps))]
	bad := verifTok("bad")
	for _, k := range p.ok {
		verifAssume(bad != k)
	}
	for _, k := range verifKeywords {
		verifAssume(bad != k)
	}
	b.tok[p.at] = bad
	return true
}

// any puts n arbitrary tokens before a token in from..to; that token or the rest of the file may be dropped.
func (b *verifB) any(from, to, n, par int) {
	p := from + verifChoose("at", to-from+1)
	b.end()
	var l []string
	l = append(l, b.tok[:p]...)
	for i := 0; i < n; i++ {
		l = append(l, verifTok("any"))
	}
	switch verifChoose("rest", 3) {
	case 0:
		l = append(l, b.tok[p:]...)
	case 1:
		l = append(l, b.tok[p+1:]...)
	case 2:
		l = append(l, emptyToken)
	}
	b.tok = l
	b.read(par)
}

// cut ends the file at a token in from..to (or within it). With par 0 the object is part of the
// second of two modules, because files with one module are read by several workers.
func (b *verifB) cut(from, to, par int) {
	c := from + verifChoose("cut", to-from+1)
	b.end()
	whole, kw := b.tok, b.kw
	b.tok, b.kw = nil, nil
	if par == 0 {
		b.tok = append(b.tok, whole[:6]...)
		b.t("/begin MODULE")
		b.t("first")
		b.t("\"\"")
		b.t("/end MODULE")
		b.tok = append(b.tok, whole[6:c]...)
	} else {
		b.tok = append(b.tok, whole[:c]...)
	}
	// the rest of a keyword is any word, also a shorter keyword
	var short []string
	if kw[c] {
		for _, k := range verifKeywords {
			if len(k) < len(whole[c]) && strings.HasPrefix(whole[c], k) {
				short = append(short, k)
			}
		}
	}
	switch p := verifChoose("part", 2+len(short)); p {
	case 0:
	case 1:
		b.s("part")
	default:
		b.t(short[p-2])
	}
	b.t(emptyToken)
	_, err := b.read(par)
	verifAssert(err != nil, "a truncated file is accepted")
}
