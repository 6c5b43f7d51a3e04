package ihex32

// C23: a read gives the same outcome whatever was read before.

//verif:run C23 quick cpu=2 n=2 len=1 reach=second
//verif:run C23 quick cpu=1 n=2 len=1 reach=second
//verif:run C23 thorough cpu=2 n=3 len=1 reach=second
func VerifH_ihexHistory() {
	n, l := verifParam("n"), verifParam("len")
	recs, exp := verifImage(n, l)
	e := verifU8("sumerr")
	recs = append(recs, verifRecBytes(0, verifU16("addr"), []uint8{verifU8("byte")}, e))
	_, _ = exp, recs
	_, _ = ParseFromFile(verifFile("first.hex", verifText(recs, "\n", true)))
	recs, exp = verifImage(n, l)
	verifAssume(verifDistinct(exp))
	h, err := ParseFromFile(verifFile("second.hex", verifText(recs, "\n", true)))
	verifReach("second")
	verifAssert(err == nil, "a well-formed file is rejected after another read")
	verifSame(h, exp)
}
