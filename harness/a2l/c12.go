package a2l

// verifText is a text together with the tokens it consists of.
type verifText struct {
	b    []byte
	want [][]byte
	n    int
}

// other is any printable character that is neither blank, quotation mark, slash, star nor backslash.
func verifOther(c byte) {
	verifAssume(c > ' ' && c < 0x7f)
	verifAssume(c != '"')
	verifAssume(c != '/')
	verifAssume(c != '*')
	verifAssume(c != '\\')
}

func (t *verifText) token(b []byte) {
	t.b = append(t.b, b...)
	t.want = append(t.want, b)
}

// word appends any word of up to n characters.
func (t *verifText) word(n int) {
	b := []byte(verifBytes("word", n))
	for i := range b {
		if i > 0 && i < n-1 {
			// a slash or a star within a word
			verifAssume(b[i] > ' ' && b[i] < 0x7f)
			verifAssume(b[i] != '"' && b[i] != '\\')
		} else {
			verifOther(b[i])
		}
	}
	for i := 0; i+1 < n; i++ {
		verifAssume(verifOr(b[i] != '/', verifAnd(b[i+1] != '/', b[i+1] != '*')))
	}
	t.token(b)
}

// text appends any quoted text of n characters.
func (t *verifText) text(n int) {
	b := []byte(verifBytes("text", n))
	t.b = append(t.b, '"')
	t.b = append(t.b, b...)
	t.b = append(t.b, '"')
	w := []byte{'"'}
	for i := range b {
		verifAssume(verifOr(verifOr(b[i] == '\n', b[i] == '\t'), verifAnd(b[i] >= ' ', b[i] < 0x7f)))
		verifAssume(b[i] != '"' && b[i] != '\\')
		if b[i] == ' ' || b[i] == '\t' || b[i] == '\n' {
			// white space counts as one blank
			if w[len(w)-1] != ' ' {
				w = append(w, ' ')
			}
		} else {
			w = append(w, b[i])
		}
	}
	t.want = append(t.want, append(w, '"'))
}

// keyword appends a keyword of two words.
func (t *verifText) keyword(s int) {
	t.b = append(t.b, "/begin"...)
	t.sep(s)
	t.b = append(t.b, "UNIT"...)
	t.want = append(t.want, []byte("/begin UNIT"))
}

const verifSeps = 10

// sep appends something that separates two words.
func (t *verifText) sep(i int) {
	switch i {
	case 0:
		t.b = append(t.b, ' ')
	case 1:
		t.b = append(t.b, '\n')
	case 2:
		t.b = append(t.b, "\r\n\t"...)
	case 3:
		t.b = append(t.b, " \n\n "...)
	case 4: // a comment between blanks
		t.b = append(t.b, " /*"...)
		t.comment()
		t.b = append(t.b, "*/ "...)
	case 5: // a comment without blanks
		t.b = append(t.b, "/*"...)
		t.comment()
		t.b = append(t.b, "*/"...)
	case 6:
		t.b = append(t.b, " //"...)
		t.line()
		t.b = append(t.b, '\n')
	case 7:
		t.b = append(t.b, "//"...)
		t.line()
		t.b = append(t.b, "\r\n"...)
	case 8: // a comment of several lines
		t.b = append(t.b, "\n/* a\n"...)
		t.comment()
		t.b = append(t.b, "\nb */\n"...)
	case 9: // two comments
		t.b = append(t.b, "/* // */ // /*\n"...)
	}
}

// comment appends any two characters within a comment.
func (t *verifText) comment() {
	b := []byte(verifBytes("comment", 2))
	verifAssume(b[0] < 0x80 && b[1] < 0x80)
	verifAssume(b[0] != '\\' && b[1] != '\\')
	verifAssume(verifOr(b[0] != '*', b[1] != '/'))
	t.b = append(t.b, b...)
}

// line appends any two characters within a line comment.
func (t *verifText) line() {
	b := []byte(verifBytes("line", 2))
	verifAssume(b[0] < 0x80 && b[1] < 0x80)
	verifAssume(b[0] != '\\' && b[1] != '\\')
	verifAssume(b[0] != '\n' && b[1] != '\n')
	t.b = append(t.b, b...)
}

// check splits the text by a number of workers.
func (t *verifText) check(par int) {
	numProc = par
	tg, err := buildTokenGeneratorFromString(string(t.b))
	verifAssert(err == nil, "a text is refused")
	for i, w := range t.want {
		g := tg.current()
		if i > 0 {
			g = tg.next()
		}
		verifAssert(g == string(w), "a token differs from the text")
	}
	if len(t.want) == 0 {
		verifAssert(tg.current() == emptyToken, "there is a token in an empty text")
	}
	verifAssert(tg.next() == emptyToken, "there is a token too many")
}

func (t *verifText) any(name string) {
	switch verifChoose(name, 4) {
	case 0:
		t.word(1)
	case 1:
		t.word(3)
	case 2:
		t.text(0)
	case 3:
		t.text(2)
	}
}

// C12: two words or texts with any separator between them.
//
//verif:run C12 quick par=1 reach=split
//verif:run C12 quick par=2 reach=split
//verif:run C12 quick par=3 reach=split
func VerifH_split() {
	var t verifText
	t.any("first")
	t.sep(verifChoose("sep", verifSeps))
	t.any("second")
	t.check(verifParam("par"))
	verifReach("split")
}

// C12: any separators before and behind a word.
//
//verif:run C12 quick par=1 reach=split
//verif:run C12 quick par=2 reach=split
//verif:run C12 thorough par=4 reach=split
func VerifH_around() {
	var t verifText
	t.sep(verifChoose("before", verifSeps))
	if verifBool("empty") {
		t.check(verifParam("par"))
		return
	}
	t.word(1)
	t.sep(verifChoose("behind", verifSeps))
	t.check(verifParam("par"))
	verifReach("split")
}

// C12: any separator within a keyword of two words.
//
//verif:run C12,C09 quick par=1 reach=split
//verif:run C12,C09 quick par=2 reach=split
//verif:run C12,C09 quick par=4 reach=split
func VerifH_keyword() {
	var t verifText
	t.word(1)
	t.sep(verifChoose("before", 2))
	t.keyword(verifChoose("inner", verifSeps))
	t.sep(verifChoose("behind", verifSeps))
	t.word(1)
	t.check(verifParam("par"))
	verifReach("split")
}

// C12: a longer text in quotation marks.
//
//verif:run C12,C09 quick par=1 n=4 reach=split
//verif:run C12,C09 quick par=2 n=3 reach=split
//verif:run C12,C09 thorough par=2 n=5 reach=split
//verif:run C12,C09 thorough par=3 n=6 timeout=2000 reach=split
func VerifH_text() {
	var t verifText
	t.word(1)
	t.sep(verifChoose("sep", 2))
	t.text(verifParam("n"))
	t.sep(1)
	t.word(1)
	t.check(verifParam("par"))
	verifReach("split")
}

// C21: any characters at a place of a file, with or without the rest of the file behind them.
//
//verif:run C21 quick par=1 n=3 step=21 ascii=1 reach=tried
//verif:run C21 quick par=2 n=2 step=8 ascii=1 reach=tried
//verif:run C21 quick par=1 n=1 step=5 ascii=0 reach=tried
//verif:run C21 thorough par=1 n=4 step=4 ascii=1 timeout=1500 reach=tried
//verif:run C21 thorough par=3 n=3 step=2 ascii=1 timeout=1500 reach=tried
//verif:run C21 thorough par=2 n=3 step=20 ascii=0 timeout=1500 reach=tried
func VerifH_anytext() {
	w := verifWords("nm", "0xAB")
	step := verifParam("step")
	at := step * verifChoose("at", (len(w)+step)/step)
	b := []byte(verifBytes("any", verifParam("n")))
	for i := range b {
		verifAssume(b[i] != '\\')
		if verifParam("ascii") == 1 {
			verifAssume(b[i] < 0x80)
		}
	}
	var t []byte
	for i, x := range w {
		if i == at {
			t = append(t, b...)
			if verifBool("end") {
				break
			}
		}
		t = append(t, x...)
		if i+1 != at || verifBool("gap") {
			t = append(t, "\n "[i%2])
		}
	}
	useMultithreading = true
	numProc = verifParam("par")
	ParseFromFile(verifFile("a.a2l", string(t)))
	verifReach("tried")
}

// C21: files made of any fragments of quotation marks, comments and blocks.
//
//verif:run C21 quick par=1 n=2 reach=tried
//verif:run C21 quick par=2 n=2 reach=tried
//verif:run C21 thorough par=1 n=3 timeout=1500 reach=tried
//verif:run C21 thorough par=3 n=3 timeout=1500 reach=tried
func VerifH_fragments() {
	var t []byte
	for i := 0; i < verifParam("n"); i++ {
		t = append(t, []string{"\"", "\"\"", "\"a", "/*", "*/", "//", "\\\"", "/begin", "/end", "PROJECT", "MODULE", "/begin PROJECT p \"\" ", "/begin MODULE m \"\" ", "/begin A2ML", "/begin IF_DATA"}[verifChoose("fragment", 15)]...)
		t = append(t, []string{"", " ", "\n"}[verifChoose("gap", 3)]...)
	}
	useMultithreading = true
	numProc = verifParam("par")
	ParseFromFile(verifFile("a.a2l", string(t)))
	verifReach("tried")
}

// C12: letters outside of ASCII, in UTF-8 or any other encoding, within a word, a text or a comment.
//
//verif:run C12 quick par=1 reach=split
//verif:run C12 quick par=2 reach=split
func VerifH_letters() {
	b := []byte(verifBytes("letter", 2))
	verifAssume(verifAnd(b[0] >= 0x80, b[1] >= 0x80))
	// neither of the two blanks outside of ASCII
	verifAssume(verifOr(b[0] != 0xC2, verifAnd(b[1] != 0x85, b[1] != 0xA0)))
	var t verifText
	t.word(1)
	t.sep(0)
	switch verifChoose("where", 4) {
	case 0:
		t.token(append(append([]byte("x"), b...), 'y'))
	case 1:
		t.token(append(append([]byte("\"x "), b...), '"'))
	case 2:
		t.token(append(append([]byte("\""), b...), " y\""...))
	case 3:
		t.b = append(append(append(t.b, "/*"...), b...), "*/"...)
	}
	t.sep(verifChoose("sep", 3))
	t.word(1)
	t.check(verifParam("par"))
	verifReach("split")
}
