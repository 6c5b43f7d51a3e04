// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

// C22: every keyword is read as its own value, every other token is refused.
//
//verif:run C22 quick reach=known,other
func VerifH_enum_MonotonyTypeEnum() {
	tg := newTokenGenerator()
	if verifBool("known") {
		i := verifChoose("which", len(verifE_MonotonyTypeEnum))
		tokenList = []string{verifE_MonotonyTypeEnum[i], "next"}
		v, err := parseMonotonyTypeEnum(&tg)
		verifAssert(err == nil, "a keyword of the enumeration is refused")
		verifAssert(v == monotonyTypeEnum(verifE_MonotonyTypeEnum[i]), "a keyword is read as another value")
		verifReach("known")
		return
	}
	t := verifTok("token")
	for _, k := range verifE_MonotonyTypeEnum {
		verifAssume(t != k)
	}
	tokenList = []string{t, "next"}
	_, err := parseMonotonyTypeEnum(&tg)
	verifAssert(err != nil, "a word that is no keyword of the enumeration is accepted")
	verifReach("other")
}
