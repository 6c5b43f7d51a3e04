package calibrationReader

import (
	"strings"

	"github.com/asap2Go/calibrationReader/a2l"
)

// C14: the kinds of one group are present or absent under the name each on its own, the other
// kinds together; every kind has an object of another name as well, and so has another module.
//
//verif:run C14 quick cpu=1 group=0 size=4 reach=found
//verif:run C14 quick cpu=1 group=1 size=4 reach=found
//verif:run C14 quick cpu=1 group=2 size=4 reach=found
//verif:run C14 thorough cpu=1 group=0 size=12 reach=found
func VerifH_lookup() {
	g, size := verifParam("group"), verifParam("size")
	cd := &CalibrationData{}
	cd.A2l.Project.Modules = make([]a2l.Module, 2)
	sel := verifChoose("module", 2)
	cd.ModuleIndex = uint8(sel)
	id := verifIdent("id")
	other := verifIdent("other")
	others := verifBool("others")
	present := make([]bool, len(a2l.VerifKinds))
	for i, k := range a2l.VerifKinds {
		if i/size == g {
			present[i] = verifBool("present")
		} else {
			present[i] = others
		}
		m := &cd.A2l.Project.Modules[sel]
		a2l.VerifAdd(m, k, other, "decoy")
		if present[i] {
			a2l.VerifAdd(m, k, id, k)
		}
		a2l.VerifAdd(&cd.A2l.Project.Modules[1-sel], k, id, "decoy")
	}
	got := cd.GetObjectByIdent(id)
	verifReach("found")
	n := 0
	for i, k := range a2l.VerifKinds {
		found := 0
		for _, o := range got {
			kind, name := a2l.VerifObject(o)
			if kind == k {
				found++
				verifAssert(name == k, "another object is returned")
			}
		}
		want := 0
		if present[i] {
			want = 1
		}
		n += want
		verifAssert(found == want, "an object is missing, doubled or not of that name")
	}
	verifAssert(len(got) == n, "something else is returned")
	verifAssert(len(cd.GetObjectByIdent(verifIdent("unknown"))) == 0, "an unknown name returns objects")
}

// C14: names that differ in letter case or by a prefix are different names.
//
//verif:run C14 quick cpu=1 len=3 before=0 reach=found,none
//verif:run C14 quick cpu=1 len=3 before=29 reach=found,none
//verif:run C14 quick cpu=1 len=3 before=253 reach=found,none
//verif:run C14 thorough cpu=1 len=3 before=1021 reach=found,none
func VerifH_lookupExact() {
	cd := verifCD()
	m := &cd.A2l.Project.Modules[0]
	k := a2l.VerifKinds[verifChoose("kind", len(a2l.VerifKinds))]
	before := strings.Repeat("n", verifParam("before"))
	a2l.VerifAdd(m, k, before+"aB1", "first")
	a2l.VerifAdd(m, k, before+"ab1", "second")
	n := 1 + verifChoose("len", verifParam("len"))
	id := verifBytes("id", n)
	got := cd.GetObjectByIdent(before + id)
	want := ""
	if id == "aB1" {
		want = "first"
	}
	if id == "ab1" {
		want = "second"
	}
	if want == "" {
		verifReach("none")
		verifAssert(len(got) == 0, "another name finds the object")
		return
	}
	verifReach("found")
	verifAssert(len(got) == 1, "the object is missing or doubled")
	_, name := a2l.VerifObject(got[0])
	verifAssert(name == want, "another object is returned")
}

// C14: value of a system constant
//
//verif:run C14 quick cpu=1 len=6 reach=found,none,unset
//verif:run C14 thorough cpu=1 len=20 reach=found,none,unset
func VerifH_systemConstant() {
	cd := &CalibrationData{}
	cd.A2l.Project.Modules = make([]a2l.Module, 2)
	sel := verifChoose("module", 2)
	cd.ModuleIndex = uint8(sel)
	id, other := verifIdent("id"), verifIdent("other")
	set := verifBool("set")
	text := verifBytes("value", verifChoose("length", verifParam("len")))
	m := map[string]a2l.SystemConstant{other: {Name: other, NameSet: true, Value: "decoy", ValueSet: true}}
	there := verifBool("there")
	if there {
		m[id] = a2l.SystemConstant{Name: id, NameSet: true, Value: text, ValueSet: set}
	}
	cd.A2l.Project.Modules[sel].ModPar.SystemConstants = m
	cd.A2l.Project.Modules[1-sel].ModPar.SystemConstants = map[string]a2l.SystemConstant{id: {Name: id, NameSet: true, Value: "decoy", ValueSet: true}}
	v, err := cd.getSystemConstantValue(id)
	switch {
	case !there:
		verifReach("none")
		verifAssert(err != nil, "an unknown system constant has a value")
	case !set:
		verifReach("unset")
		verifAssert(err != nil, "a system constant without value has a value")
	default:
		verifReach("found")
		verifAssert(err == nil, "a system constant is not found")
		verifAssert(v == text, "a system constant has another value")
	}
}
