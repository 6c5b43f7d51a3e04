// Code generated by tools/gen_a2l.py. DO NOT EDIT.

package a2l

// C22: every keyword is read as its own value, every other token is refused.
//
//verif:run C22 quick reach=known,other
func VerifH_enum_MemoryTypeEnum() {
	tg := newTokenGenerator()
	if verifBool("known") {
		i := verifChoose("which", len(verifE_MemoryTypeEnum))
		tokenList = []string{verifE_MemoryTypeEnum[i], "next"}
		v, err := parseMemoryTypeEnum(&tg)
		verifAssert(err == nil, "a keyword of the enumeration is refused")
		verifAssert(v == memoryTypeEnum(verifE_MemoryTypeEnum[i]), "a keyword is read as another value")
		verifReach("known")
		return
	}
	t := verifTok("token")
	for _, k := range verifE_MemoryTypeEnum {
		verifAssume(t != k)
	}
	tokenList = []string{t, "next"}
	_, err := parseMemoryTypeEnum(&tg)
	verifAssert(err != nil, "a word that is no keyword of the enumeration is accepted")
	verifReach("other")
}
