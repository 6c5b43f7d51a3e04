package a2l

type verifTop struct {
	av     asap2Version
	mv     a2mlVersion
	h      header
	name   string
	text   string
	mods   int
	mName  [3]string
	mText  [3]string
	all    [3]verifAll
	begin  int // of the project
	finish int
}

// verifMkTop is a file with versions, a header and some modules.
func verifMkTop(b *verifB, mode, mods int) *verifTop {
	w := &verifTop{mods: mods}
	b.t("ASAP2_VERSION")
	w.av = verifMk_asap2Version(b, 0)
	if mode != 0 {
		b.t("A2ML_VERSION")
		w.mv = verifMk_a2mlVersion(b, 0)
	}
	w.begin = len(b.tok)
	b.t("/begin PROJECT")
	w.name = b.s("project")
	w.text = b.s("projectText")
	if mode != 0 {
		b.t("/begin HEADER")
		w.h = verifMk_header(b, mode-1)
	}
	for i := 0; i < mods; i++ {
		b.t("/begin MODULE")
		w.mName[i] = b.s("module")
		w.mText[i] = b.s("moduleText")
		w.all[i].add(b, 23, -1)
		w.all[i].add(b, 10, -1)
		if i != 1 {
			w.all[i].add(b, 15, 1)
		}
		b.t("/end MODULE")
	}
	w.finish = len(b.tok)
	b.t("/end PROJECT")
	b.t(emptyToken)
	return w
}

func (w *verifTop) same(a *A2L) {
	verifAssert(verifEq_asap2Version(a.Asap2Version, w.av), "ASAP2_VERSION differs from the file")
	verifAssert(verifEq_a2mlVersion(a.A2mlVersion, w.mv), "A2ML_VERSION differs from the file")
	verifAssert(verifEq_header(a.Project.header, w.h), "the header differs from the file")
	verifAssert(a.Project.Name == w.name && a.Project.longIdentifier == w.text, "the project differs from the file")
	verifAssert(len(a.Project.Modules) == w.mods, "a module is missing or there is one too many")
	for i := 0; i < w.mods; i++ {
		m := &a.Project.Modules[i]
		verifAssert(m.Name == w.mName[i] && m.longIdentifier == w.mText[i], "a module's name differs from the file")
		w.all[i].same(m)
	}
}

// C07, C08, C23: versions, header, and up to three modules with their own objects.
//
//verif:run C07,C08,C23 quick par=0 mods=1 reach=parsed
//verif:run C07,C08,C23 quick par=2 mods=1 reach=parsed
//verif:run C07,C08,C23 quick par=0 mods=2 reach=parsed
//verif:run C07,C08,C23 quick par=0 mods=3 reach=parsed
//verif:run C07,C08,C23 quick par=0 mods=0 reach=parsed
func VerifH_top() {
	b := verifNew()
	w := verifMkTop(b, verifChoose("mode", verifModes_header+1), verifParam("mods"))
	a, err := b.read(verifParam("par"))
	verifAssert(err == nil, "a valid file is refused")
	w.same(&a)
	verifReach("parsed")
}

// C10: a malformed number in the versions or modules.
//
//verif:run C10 quick par=0 mods=2 reach=tried
//verif:run C10 quick par=2 mods=1 reach=tried
func VerifH_topbad() {
	b := verifNew()
	verifMkTop(b, verifModes_header-1, verifParam("mods"))
	b.spoil()
	_, err := b.read(verifParam("par"))
	verifAssert(err != nil, "a malformed value is accepted")
	verifReach("tried")
}

// C11: the text ends anywhere within the project.
//
//verif:run C11 quick par=0 mods=2 reach=tried
//verif:run C11 quick par=1 mods=1 reach=tried
//verif:run C11 quick par=2 mods=1 reach=tried
//verif:run C11 quick par=0 mods=0 reach=tried
func VerifH_topcut() {
	b := verifNew()
	w := verifMkTop(b, verifModes_header-1, verifParam("mods"))
	c := w.begin + 1 + verifChoose("cut", w.finish-w.begin)
	kw := b.kw[c]
	b.tok = b.tok[:c]
	if !kw && verifBool("part") {
		b.s("part")
	}
	b.t(emptyToken)
	_, err := b.read(verifParam("par"))
	verifAssert(err != nil, "a truncated file is accepted")
	verifReach("tried")
}

// C21: any tokens at any place of the file outside of the objects.
//
//verif:run C21 quick par=0 mods=1 n=1 reach=tried
//verif:run C21 quick par=2 mods=1 n=1 reach=tried
//verif:run C21 quick par=0 mods=0 n=2 reach=tried
//verif:run C21 quick par=2 mods=0 n=2 reach=tried
//verif:run C21 thorough par=0 mods=2 n=2 reach=tried
//verif:run C21 thorough par=0 mods=0 n=3 reach=tried
func VerifH_topany() {
	b := verifNew()
	w := verifMkTop(b, verifModes_header-1, verifParam("mods"))
	b.any(0, w.finish, verifParam("n"), verifParam("par"))
	verifReach("tried")
}

// C21: files of arbitrary tokens only.
//
//verif:run C21 quick par=0 n=3 reach=tried
//verif:run C21 quick par=1 n=3 reach=tried
//verif:run C21 thorough par=0 n=4 reach=tried
func VerifH_tokens() {
	b := verifNew()
	for i := 0; i < verifParam("n"); i++ {
		b.v(verifTok("any"))
	}
	b.t(emptyToken) // the tokenizer ends every list this way
	b.read(verifParam("par"))
	verifReach("tried")
}
