// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

// C22: every keyword is read as its own value, every other token is refused.
//
//verif:run C22 quick reach=known,other
func VerifH_enum_IndexOrderEnum() {
	tg := newTokenGenerator()
	if verifBool("known") {
		i := verifChoose("which", len(verifE_IndexOrderEnum))
		tokenList = []string{verifE_IndexOrderEnum[i], "next"}
		v, err := parseIndexOrderEnum(&tg)
		verifAssert(err == nil, "a keyword of the enumeration is refused")
		verifAssert(v == indexOrderEnum(verifE_IndexOrderEnum[i]), "a keyword is read as another value")
		verifReach("known")
		return
	}
	t := verifTok("token")
	for _, k := range verifE_IndexOrderEnum {
		verifAssume(t != k)
	}
	tokenList = []string{t, "next"}
	_, err := parseIndexOrderEnum(&tg)
	verifAssert(err != nil, "a word that is no keyword of the enumeration is accepted")
	verifReach("other")
}
