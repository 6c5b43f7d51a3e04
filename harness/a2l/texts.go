package a2l

// C12, C09: texts that hold keywords, comment marks and many words, in any one of many objects, read by several workers.
//
//verif:run C12,C09 quick par=1 reach=read
//verif:run C12,C09 quick par=2 reach=read
//verif:run C12,C09 quick par=3 reach=read
//verif:run C12,C09 quick par=4 reach=read
//verif:run C12,C09 quick par=7 reach=read
//verif:run C12,C09 thorough par=5 reach=read
//verif:run C12,C09 thorough par=16 reach=read
func VerifH_texts() {
	texts := []string{"/begin UNIT x /end UNIT", "/end MODULE", "/end MODULE /end PROJECT", "/begin MODULE m \t y", "a /* b", "b */ c", "*/", "/*",
		"x // y", "//", "/begin A2ML a", "/begin IF_DATA b", "/begin", "/end", "PROJECT", "/end UNIT",
		"one two three four five six seven eight nine ten eleven twelve thirteen fourteen fifteen sixteen seventeen eighteen nineteen twenty",
		"http://a.b/*c", "%5.2 [m/s]", "'", "a,b;c:d", "#", "0x10 -1.5", "UWORD"}
	k := verifChoose("text", len(texts)+1)
	at := verifChoose("at", 8)
	field := verifChoose("field", 2)
	inside := ""
	if k < len(texts) {
		inside = texts[k]
	} else {
		inside = "a" + []string{"\n", "\r\n", "\t", "  "}[verifChoose("gap", 4)] + "b"
	}
	words := "\"" + inside + "\""
	want := ""
	blank := false
	for i := 0; i < len(words); i++ {
		c := words[i]
		if c == ' ' || c == '\n' || c == '\r' || c == '\t' {
			if !blank {
				want += " "
			}
			blank = true
			continue
		}
		blank = false
		want += string([]byte{c})
	}
	names := []string{"u0", "u1", "u2", "u3", "u4", "u5", "u6", "u7"}
	t := "ASAP2_VERSION 1 71 /begin PROJECT p \"\" /begin MODULE m \"\"\n"
	for i, n := range names {
		x, y := "\"l "+n+"\"", "\"d\""
		if i == at && field == 0 {
			x = words
		} else if i == at {
			y = words
		}
		t += "/begin UNIT " + n + " " + x + " " + y + " DERIVED\n/end UNIT\n"
	}
	t += "/begin GROUP g \"\" /end GROUP /end MODULE /end PROJECT\n"
	useMultithreading = true
	numProc = verifParam("par")
	a, err := ParseFromFile(verifFile("a.a2l", t))
	verifAssert(err == nil, "a valid file is refused")
	verifAssert(len(a.Project.Modules) == 1, "the module is missing or there is one too many")
	m := &a.Project.Modules[0]
	verifAssert(len(m.Units) == 8 && len(m.Groups) == 1, "an object is missing or there is one too many")
	for i, n := range names {
		u, ok := m.Units[n]
		verifAssert(ok && u.name == n && u.Type == Derived, "an object differs from the file")
		x, y := "\"l "+n+"\"", "\"d\""
		if i == at && field == 0 {
			x = want
		} else if i == at {
			y = want
		}
		verifAssert(u.longIdentifier == x && u.display == y, "a text differs from the file")
	}
	verifReach("read")
}
