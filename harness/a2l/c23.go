package a2l

// verifWords is a small file as its words.
func verifWords(name, address string) []string {
	return []string{"ASAP2_VERSION", "1", "71", "/begin", "PROJECT", "p1", "\"the  project\"",
		"/begin", "MODULE", "m1", "\"\"",
		"/begin", "MEASUREMENT", name, "\"a // text\"", "UWORD", "cm", "1", "2.5", "-3", "4e3",
		"ECU_ADDRESS", address, "/end", "MEASUREMENT",
		"/begin", "UNIT", "u1", "\"/* no comment */\"", "\"km/h\"", "EXTENDED_SI", "/end", "UNIT",
		"/begin", "CHARACTERISTIC", "c1", "\"\"", "VALUE", "0x10", "rl", "0", "cm", "0", "1",
		"READ_ONLY", "/end", "CHARACTERISTIC",
		"/begin", "COMPU_METHOD", "cm", "\"x\"", "LINEAR", "\"%3\"", "\"u/v\"", "COEFFS_LINEAR", "2", "3", "/end", "COMPU_METHOD",
		"/end", "MODULE", "/end", "PROJECT"}
}

func verifCheckWords(a *A2L, err error, name, address string) {
	verifAssert(err == nil, "a valid file is refused")
	verifAssert(a.Asap2Version.versionNo == 1 && a.Asap2Version.upgradeNo == 71, "ASAP2_VERSION differs from the file")
	verifAssert(a.Project.Name == "p1" && a.Project.longIdentifier == "\"the project\"", "the project differs from the file")
	verifAssert(len(a.Project.Modules) == 1, "the module is missing or there is one too many")
	m := &a.Project.Modules[0]
	verifAssert(m.Name == "m1" && m.longIdentifier == "\"\"", "the module's name differs from the file")
	n := verifCounts(m)
	verifAssert(len(m.Measurements) == 1 && len(m.Characteristics) == 1 && len(m.Units) == 1 && len(m.CompuMethods) == 1, "an object is missing or there is one too many")
	sum := 0
	for _, c := range n {
		sum += c
	}
	verifAssert(sum == 4, "an object of another kind appears")
	me, ok := m.Measurements[name]
	verifAssert(ok, "an object is missing")
	var w measurement
	w.name, w.nameSet = name, true
	w.longIdentifier, w.longIdentifierSet = "\"a // text\"", true
	w.datatype, w.datatypeSet = UWORD, true
	w.conversion, w.conversionSet = "cm", true
	w.resolution, w.resolutionSet = 1, true
	w.accuracy, w.accuracySet = 2.5, true
	w.lowerLimit, w.lowerLimitSet = -3, true
	w.upperLimit, w.upperLimitSet = 4000, true
	w.ecuAddress.address, w.ecuAddress.addressSet = address, true
	verifAssert(verifEq_measurement(me, w), "a measurement differs from the file")
	u := m.Units["u1"]
	verifAssert(u.name == "u1" && u.longIdentifier == "\"/* no comment */\"" && u.display == "\"km/h\"" && u.Type == ExtendedSi, "a unit differs from the file")
	c := m.Characteristics["c1"]
	verifAssert(c.Address == "0x10" && c.Deposit == "rl" && c.conversion == "cm" && c.upperLimit == 1, "a characteristic differs from the file")
	verifAssert(c.readOnly.value, "a characteristic differs from the file")
	cm := m.CompuMethods["cm"]
	verifAssert(cm.Unit == "\"u/v\"" && cm.CoeffsLinear.A == 2 && cm.CoeffsLinear.B == 3 && cm.CoeffsLinear.ASet, "a conversion method differs from the file")
}

func verifTwoLetters(name string) string {
	s := verifBytes(name, 2)
	for i := 0; i < 2; i++ {
		verifAssume(s[i] >= 'a')
		verifAssume(s[i] <= 'z')
	}
	return s
}

// C12: a file in any layout, with a special separator or comment at any place.
//
//verif:run C12,C09 quick par=1 styles=3 step=1 reach=read
//verif:run C12,C09 quick par=2 styles=1 step=2 reach=read
//verif:run C12,C09 quick par=3 styles=3 step=5 reach=read
//verif:run C12,C09 thorough par=2 styles=3 step=1 timeout=1500 reach=read
//verif:run C12,C09 thorough par=4 styles=3 step=1 timeout=1500 reach=read
func VerifH_layout() {
	name := verifTwoLetters("name")
	w := verifWords(name, "0xAB")
	gap := []string{" ", "\n", "\r\n\t"}[verifChoose("style", verifParam("styles"))]
	step := verifParam("step")
	at := step * verifChoose("at", (len(w)+step)/step)
	sep := []string{"\n", "\t \r\n \n", " /* c \" */ ", "/* /begin MODULE\n \n*/", "//\n", " // /* \" c\r\n", "/**//**/"}[verifChoose("sep", 7)]
	var t []byte
	for i, x := range w {
		if i == at {
			t = append(t, sep...)
		} else if i > 0 {
			t = append(t, gap...)
		}
		t = append(t, x...)
	}
	if at >= len(w) {
		t = append(t, sep...)
	}
	useMultithreading = true
	numProc = verifParam("par")
	a, err := ParseFromFile(verifFile("a.a2l", string(t)))
	verifCheckWords(&a, err, name, "0xAB")
	verifReach("read")
}

func verifJoin(w []string) string {
	var t []byte
	for _, x := range w {
		t = append(t, x...)
		t = append(t, ' ')
	}
	return string(t)
}

// C23: a file read after another one, valid or not.
//
//verif:run C23 quick par=1 reach=second
//verif:run C23 quick par=2 reach=second
//verif:run C23 quick par=3 reach=second
func VerifH_a2lHistory() {
	useMultithreading = true
	numProc = verifParam("par")
	n1, n2 := verifTwoLetters("first"), verifTwoLetters("second")
	w := verifWords(n1, "0x77")
	first := ""
	bad := true
	switch verifChoose("history", 9) {
	case 0:
		first = verifJoin(w)
		bad = false
	case 1: // with other objects and options
		v := append([]string{}, w[:48]...)
		v = append(v, "/begin", "GROUP", "g", "\"\"", "ROOT", "/end", "GROUP", "/begin", "MEASUREMENT", "zzz", "\"\"", "UBYTE", "cm", "1", "2", "3", "4",
			"BIT_MASK", "0xFF", "DISCRETE", "/end", "MEASUREMENT")
		first = verifJoin(append(v, w[48:]...))
		bad = false
	case 2: // a malformed number
		v := append([]string{}, w...)
		v[17+verifChoose("number", 4)] = "bad"
		first = verifJoin(v)
	case 3: // cut
		at := 9 + 4*verifChoose("cut", 12)
		first = verifJoin(w[:at])
	case 4: // several modules
		v := append([]string{}, w[:len(w)-2]...)
		v = append(v, "/begin", "MODULE", "m2", "\"\"", "/begin", "UNIT", "u2", "\"\"", "\"x\"", "DERIVED", "/end", "UNIT", "/end", "MODULE", "/end", "PROJECT")
		first = verifJoin(v)
		bad = false
	case 5: // an open text
		first = verifJoin(w[:14]) + "\"open"
	case 6: // an open comment
		first = verifJoin(w[:23]) + "/* open"
	case 7: // an unexpected keyword
		v := append([]string{}, w...)
		v[3+8*verifChoose("keyword", 6)] = "/end"
		first = verifJoin(v)
	case 8:
		first = ""
		bad = false
	}
	_, err := ParseFromFile(verifFile("first.a2l", first))
	_ = bad
	if !bad {
		verifAssert(err == nil, "a valid file is refused")
	}
	a, err := ParseFromFile(verifFile("second.a2l", verifJoin(verifWords(n2, "0x99"))))
	verifCheckWords(&a, err, n2, "0x99")
	verifReach("second")
}

// C09, C23: a file of several modules, each with its own objects, some of the same name.
//
//verif:run C09,C23 quick par=1 mods=5 reach=read
//verif:run C09,C23 quick par=2 mods=5 reach=read
//verif:run C09,C23 quick par=3 mods=5 reach=read
//verif:run C09,C23 thorough par=4 mods=9 reach=read
func VerifH_modules() {
	useMultithreading = true
	numProc = verifParam("par")
	n := 1 + verifChoose("mods", verifParam("mods"))
	gap := []string{" ", "\n", " \r\n\t"}[verifChoose("gap", 3)]
	name, other := verifTwoLetters("name"), verifTwoLetters("other")
	verifAssume(name != other)
	digit := func(i int) string { return string(rune('0' + i)) }
	t := "ASAP2_VERSION 1 71 /begin" + gap + "PROJECT p1 \"\" "
	for i := 0; i < n; i++ {
		t += "/begin" + gap + "MODULE m" + digit(i) + " \"\" "
		t += "/begin UNIT " + name + " \"\" \"x" + digit(i) + "\" DERIVED /end UNIT "
		if i%2 == 1 {
			t += "/begin UNIT " + other + " \"\" \"y" + digit(i) + "\" DERIVED /end UNIT "
		}
		t += "/begin FRAME f" + digit(i) + " \"\" " + digit(i) + " 7 /end FRAME "
		t += "/end" + gap + "MODULE "
	}
	t += "/end PROJECT"
	a, err := ParseFromFile(verifFile("m.a2l", t))
	verifAssert(err == nil, "a valid file is refused")
	verifAssert(len(a.Project.Modules) == n, "a module is missing or there is one too many")
	for i := 0; i < n; i++ {
		m := &a.Project.Modules[i]
		verifAssert(m.Name == "m"+digit(i), "a module's name differs from the file")
		verifAssert(len(m.Units) == 1+i%2, "an object of a module is missing or one of another module appears")
		verifAssert(m.Units[name].display == "\"x"+digit(i)+"\"", "a module holds an object of another module")
		if i%2 == 1 {
			verifAssert(m.Units[other].display == "\"y"+digit(i)+"\"", "a module holds an object of another module")
		}
		verifAssert(m.frame.scalingUnit == uint16(i), "a module holds an object of another module")
	}
	verifReach("read")
}
