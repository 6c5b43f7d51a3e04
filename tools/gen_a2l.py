#!/usr/bin/env python3
"""Writes harness/a2l/gen_*.go from a2l_spec.json: for every A2L type a function that
appends the tokens of an object and returns the object they describe, an equality over the
described fields, and the harness entry points per object kind.

a2l_spec.json is the reviewed table of the A2L objects (keyword, mandatory values in order,
optional keywords with their field); it is not derived from /repo at check time."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = json.load(open(os.path.join(here, "tools", "a2l_spec.json")))
T, E, MOD = S["types"], S["enums"], S["module"]
out = os.path.join(here, "harness", "a2l")
gt = lambda t: E[t[2:]]["go"] if t.startswith("e:") else t

def modes(t):
    """1 (mandatory) + options + all + all reversed"""
    if t.startswith("e:") or t == "s": return 1
    o = T[t]["opts"]
    if not o: return 1
    return 1 + sum(modes(x[3]) for x in o) + 2
def pairs(t):
    """ordered pairs of options, of the type itself and then of its options"""
    if t.startswith("e:") or t == "s" or len(T[t]["opts"]) < 2: return 0
    return len(T[t]["opts"]) ** 2 + sum(pairs(o[3]) for o in T[t]["opts"])
def hasopts(t): return not t.startswith("e:") and t != "s" and bool(T[t]["opts"])

def value(kind, name):
    m = re.match(r"([ui])(16|32)$", kind)
    if m: return f"b.{kind}({json.dumps(name)})"
    if kind == "f": return f"b.f({json.dumps(name)})"
    if kind == "s": return f"b.s({json.dumps(name)})"
    if kind.startswith("e:"):
        e = E[kind[2:]]
        return f"{e['go']}(b.e({json.dumps(name)}, verifE_{kind[2:]}, vary))"
    raise Exception(kind)

TABLES = {"CompuTab": ("NumberValuePairs", ["InVal:f", "OutVal:f"]), "CompuVTab": ("NumberValuePairs", ["InVal:f", "OutVal:s"]),
          "CompuVTabRange": ("NumberValueTriples", ["InValMin:f", "InValMax:f", "OutVal:s"])}

def mk(t):
    d = T[t]; L = []
    L.append(f"// {t}: m 0 mandatory values with every enumeration, -1 mandatory values only, then one option each, all, all reversed")
    L.append(f"func verifMk_{t}(b *verifB, m int) {t} {{")
    L.append(f"\tvar w {t}\n\tvary := m == 0\n\t_ = vary")
    if d.get("flag"):
        L.append("\tw.value, w.valueSet = true, true")
    for fld, st, k in d["man"]:
        if t in TABLES and fld == TABLES[t][0]:
            L.append(f"\tn := b.listLen(vary)\n\tif n == 0 {{\n\t\tn = 2\n\t}}\n\tw.{fld}, w.{st} = uint16(n), true\n\tb.fixed16(n)")
            continue
        if k.startswith("special"):
            if t in TABLES:
                L.append("\tfor i := 0; i < n; i++ {")
                for c in TABLES[t][1]:
                    f_, kk = c.split(":")
                    L.append(f"\t\tw.{f_} = append(w.{f_}, {value(kk, f_)})")
                L.append("\t}")
                for c in TABLES[t][1]: L.append(f"\tw.{c.split(':')[0]}Set = true")
            else:
                L.append('\tfor i, n := 0, b.listLen(vary); i < n; i++ {\n\t\tw.criterionName = append(w.criterionName, b.s("criterionName"))\n\t\tw.criterionValue = append(w.criterionValue, b.s("criterionValue"))\n\t}\n\tw.criterionNameSet, w.criterionValueSet = true, true')
            continue
        if k == "concat":
            L.append(f'\tfor i, n := 0, b.listLen(vary); i < n; i++ {{\n\t\tw.{fld} += " " + b.c()\n\t}}')
        elif k == "slist":
            L.append(f'\tfor i, n := 0, b.listLen(vary); i < n; i++ {{\n\t\tw.{fld} = append(w.{fld}, b.s("{fld}"))\n\t}}')
        elif k == "flist":
            L.append(f'\tfor i, n := 0, b.listLen(vary); i < n; i++ {{\n\t\tw.{fld} = append(w.{fld}, b.f("{fld}"))\n\t}}')
        elif k == "i32x5":
            L.append(f'\tfor i := 0; i < 5; i++ {{\n\t\tw.{fld} = append(w.{fld}, b.i32("{fld}"))\n\t}}')
        elif k == "s5":
            L.append(f'\tfor i := range w.{fld} {{\n\t\tw.{fld}[i] = b.s("{fld}")\n\t}}')
        elif t == "MatrixDim":
            continue
        else:
            L.append(f"\tw.{fld} = {value(k, fld)}")
        if st: L.append(f"\tw.{st} = true")
    if t == "MatrixDim":
        L.append("\tn := 3\n\tif vary {\n\t\tn = 1 + verifChoose(\"dims\", 5)\n\t}")
        for i, (fld, st, k) in enumerate(d["man"]):
            L.append(f"\tif n > {i} {{\n\t\tw.{fld}, w.{st} = {value(k, fld)}, true\n\t}}")
    if t == "blob": L.append("\tw.addressType = DIRECT")
    if d["opts"]:
        n = len(d["opts"])
        L.append("\tk := m - 1")
        L.append(f"\tall, rev := m == verifModes_{t}-2, m == verifModes_{t}-1")
        L.append(f"\tpair, first, second, nested := m >= verifModes_{t}, -1, -1, m-verifModes_{t}-{n*n}")
        L.append(f"\tif pair && nested < 0 {{\n\t\tfirst, second = (m-verifModes_{t})/{n}, (m-verifModes_{t})%{n}\n\t\tverifAssume(first != second)\n\t}}\n\tif pair {{\n\t\tk = -1\n\t}}\n\t_, _ = nested, second")
        L.append(f"\tfor i := 0; i < {n}; i++ {{\n\t\to := i\n\t\tif rev {{\n\t\t\to = {n-1} - i\n\t\t}}\n\t\tif first >= 0 {{\n\t\t\to = first\n\t\t\tfirst, second = second, -1\n\t\t\tk = -2\n\t\t}} else if k == -2 {{\n\t\t\tbreak\n\t\t}}\n\t\tswitch o {{")
        pb = 0
        base = 0
        for i, (tok, fld, how, nt) in enumerate(d["opts"]):
            c = modes(nt)
            L.append(f"\t\tcase {i}:")
            pc = pairs(nt)
            inp = f" || pair && nested >= {pb} && nested < {pb+pc}" if pc else ""
            L.append(f"\t\t\tif all || rev || k == -2 || k >= {base} && k < {base+c}{inp} {{")
            ind = "\t\t\t\t"
            sub = f"k-{base}"
            L.append(f"{ind}sub := {sub}\n{ind}if all || rev {{")
            if hasopts(nt): L.append(f"{ind}\tsub = verifModes_{nt} - 2\n{ind}\tif rev {{\n{ind}\t\tsub++\n{ind}\t}}")
            else: L.append(f"{ind}\tsub = -1")
            L.append(f"{ind}}} else if pair {{\n{ind}\tsub = -1")
            if pc: L.append(f"{ind}\tif k != -2 {{\n{ind}\t\tsub = verifModes_{nt} + nested - {pb}\n{ind}\t}}")
            pb += pc
            L.append(f"{ind}}}\n{ind}_ = sub")
            L.append(f'{ind}b.t("{tok}")')
            if nt == "s": L.append(f'{ind}w.{fld} = b.s("{fld}")')
            elif nt.startswith("e:"):
                L.append(f'{ind}w.{fld} = {E[nt[2:]]["go"]}(b.e("{fld}", verifE_{nt[2:]}, sub == 0))')
                if t == "blob" and fld == "addressType": L.append(f"{ind}w.addressTypeSet = true")
            elif how == "list":
                L.append(f'{ind}w.{fld} = append(w.{fld}, verifMk_{nt}(b, sub))')
                L.append(f'{ind}for i, n := 1, b.times(sub == 0); i < n; i++ {{\n{ind}b.t("{tok}")\n{ind}w.{fld} = append(w.{fld}, verifMk_{nt}(b, -1))\n{ind}}}')
            elif how.startswith("map:"):
                key = how[4:]
                L.append(f'{ind}x := verifMk_{nt}(b, sub)')
                L.append(f'{ind}w.{fld} = map[string]{nt}{{x.{key}: x}}')
                L.append(f'{ind}for i, n := 1, b.times(sub == 0); i < n; i++ {{\n{ind}b.t("{tok}")\n{ind}x = verifMk_{nt}(b, -1)\n{ind}w.{fld}[x.{key}] = x\n{ind}}}')
            else:
                L.append(f'{ind}w.{fld} = verifMk_{nt}(b, sub)')
                if t == "variantCoding" and fld == "varSeparator": L.append(f"{ind}w.varSeparatorSet = true")
            L.append("\t\t\t}")
            base += c
        L.append("\t\t}\n\t}")
    if d["end"]: L.append(f'\tb.t("{d["end"]}")')
    L.append("\treturn w\n}")
    return "\n".join(L) + "\n"

def eq(t):
    L = [f"func verifEq_{t}(a, w {t}) bool {{\n\tr := true"]
    for n, ft in T[t]["fields"]:
        m = re.match(r"\[\](\w+)$", ft)
        if m:
            e = m.group(1)
            L.append(f"\tr = verifAnd(r, len(a.{n}) == len(w.{n}))\n\tfor i := 0; i < len(a.{n}) && i < len(w.{n}); i++ {{")
            L.append(f"\t\tr = verifAnd(r, {('verifEq_%s(a.%s[i], w.%s[i])' % (e, n, n)) if e in T else 'a.%s[i] == w.%s[i]' % (n, n)})\n\t}}")
        elif ft.startswith("map["):
            e = ft.split("]")[1]
            L.append(f"\tr = verifAnd(r, len(a.{n}) == len(w.{n}))\n\tfor k, v := range w.{n} {{\n\t\tx, ok := a.{n}[k]\n\t\tr = verifAnd(r, verifAnd(ok, verifEq_{e}(x, v)))\n\t}}")
        elif ft == "[5]string":
            L.append(f"\tfor i := range w.{n} {{\n\t\tr = verifAnd(r, a.{n}[i] == w.{n}[i])\n\t}}")
        elif ft in T:
            L.append(f"\tr = verifAnd(r, verifEq_{ft}(a.{n}, w.{n}))")
        else:
            L.append(f"\tr = verifAnd(r, a.{n} == w.{n})")
    L.append("\treturn r\n}")
    return "\n".join(L) + "\n"

def consts(t): return f"const verifModes_{t} = {modes(t)}\n" + (f"const verifPairs_{t} = {pairs(t)}\n" if pairs(t) else "")

# which module-level kind owns which type (a type used by several kinds goes to the shared file)
use = {}
def walk(t, kind):
    if t.startswith("e:") or t == "s": return
    use.setdefault(t, set()).add(kind)
    for o in T[t]["opts"]: walk(o[3], kind)
for tok, fld, how, t in MOD: walk(t, t)
for t in ("header", "asap2Version", "a2mlVersion"): walk(t, t)
kindof = {o[3]: o for o in MOD}
files = {}
for t in sorted(use):
    k = next(iter(use[t])) if len(use[t]) == 1 else "shared"
    if t == "IfData": k = "shared"
    files.setdefault(k, []).append(t)
hdr = "// Code generated by tools/gen_a2l.py. DO NOT EDIT.\n\npackage a2l\n\n"
for f in os.listdir(out):
    if f.startswith("gen_"): os.remove(os.path.join(out, f))
for k, ts in sorted(files.items()):
    s = hdr
    for t in ts: s += consts(t) + mk(t) + eq(t)
    if k == "shared":
        for n, e in E.items():
            s += f"var verifE_{n} = []string{{" + ", ".join(json.dumps(x) for x in e["toks"]) + "}\n"
        toks = set()
        for t, d in T.items():
            if d["end"]: toks.add(d["end"])
            for o in d["opts"]: toks.add(o[0])
        for o in MOD: toks.add(o[0])
        toks |= {"/begin PROJECT", "/end PROJECT", "/begin MODULE", "/end MODULE", "/begin HEADER", "ASAP2_VERSION", "A2ML_VERSION"}
        s += "// every keyword that begins or ends an object or an option\nvar verifKeywords = []string{\n" + "".join(f"\t{json.dumps(x)},\n" for x in sorted(toks)) + "}\n"
    open(os.path.join(out, f"gen_{k}.go"), "w").write(s)
# per kind harness
TMPL = open(os.path.join(here, "tools", "a2l_kind.go.tmpl")).read()
COUNTED = [(o[1], o[3]) for o in MOD if o[2].startswith("map")]
s = hdr + "// verifCounts are the numbers of objects per kind.\nfunc verifCounts(m *Module) [%d]int {\n\treturn [%d]int{%s}\n}\n" % (len(COUNTED), len(COUNTED), ", ".join(f"len(m.{f})" for f, _ in COUNTED))
open(os.path.join(out, "gen_counts.go"), "w").write(s)
for tok, fld, how, t in MOD + [["/begin IF_DATA", "ifData", "map:name", "IfData"]][:0]:
    ismap = how.startswith("map")
    key = how[4:] if ismap else ""
    idx = [x for _, x in COUNTED].index(t) if ismap else -1
    s = TMPL.replace("TYPE", t).replace("TOKEN", tok).replace("FIELD", fld).replace("KEY", key or "KEY").replace("INDEX", str(idx))
    if ismap: s = re.sub(r"(?s)//ONE\n.*?//END\n", "", s).replace("//MAP\n", "").replace("//END\n", "")
    else: s = re.sub(r"(?s)//MAP\n.*?//END\n", "", s).replace("//ONE\n", "").replace("//END\n", "")
    if modes(t) == 1:
        s = re.sub(r"(?s)//OPTS\n.*?//ENDOPTS\n", "", s)
    if not pairs(t):
        s = re.sub(r"(?s)//PAIRS\n.*?//ENDPAIRS\n", "", s)
    s = s.replace("//PAIRS\n", "").replace("//ENDPAIRS\n", "")
    s = s.replace("//OPTS\n", "").replace("//ENDOPTS\n", "")
    open(os.path.join(out, f"gen_h_{t}.go"), "w").write(hdr + s)
# all kinds in one value
s = hdr + "// verifAll are the objects of a module.\ntype verifAll struct {\n" + "".join(f"\t{f} []{t}\n" for _, f, _, t in MOD) + "}\n\n"
s += f"const verifKinds = {len(MOD)}\n\n// add appends an object of a kind to the tokens.\nfunc (x *verifAll) add(b *verifB, kind, m int) {{\n\tswitch kind {{\n"
for i, (tok, f, how, t) in enumerate(MOD):
    s += f'\tcase {i}: // {t}\n\t\tb.t("{tok}")\n\t\tx.{f} = append(x.{f}, verifMk_{t}(b, m))\n'
s += "\t}\n}\n\n// verifSingle: the module has room for one object of the kind only.\nfunc verifSingle(kind int) bool {\n\tswitch kind {\n\tcase " + ", ".join(str(i) for i, o in enumerate(MOD) if not o[2].startswith("map")) + ":\n\t\treturn true\n\t}\n\treturn false\n}\n\n"
s += "// same: the module has exactly these objects.\nfunc (x *verifAll) same(m *Module) {\n\tverifAssert(verifCounts(m) == [%d]int{%s}, \"an object is missing or there is one too many\")\n" % (len(COUNTED), ", ".join(f"len(x.{f})" for f, _ in COUNTED))
for tok, f, how, t in MOD:
    if how.startswith("map"):
        s += f'\tfor _, w := range x.{f} {{\n\t\tg, ok := m.{f}[w.{how[4:]}]\n\t\tverifAssert(ok, "an object is not found under its name")\n\t\tverifAssert(verifEq_{t}(g, w), "an object differs from the file")\n\t}}\n'
    else:
        s += f'\tif n := len(x.{f}); n > 0 {{\n\t\tverifAssert(verifEq_{t}(m.{f}, x.{f}[n-1]), "an object differs from the file")\n\t}} else {{\n\t\tverifAssert(verifEq_{t}(m.{f}, {t}{{}}), "an object appears that is not in the file")\n\t}}\n'
s += "}\n"
open(os.path.join(out, "gen_all.go"), "w").write(s)
for n, e in E.items():
    if n == "CalibrationAccessEnum": continue  # this reader moves to the keyword by itself: checked through whole files
    open(os.path.join(out, f"gen_e_{n}.go"), "w").write(hdr + f"""// C22: every keyword is read as its own value, every other token is refused.
//
//verif:run C22 quick reach=known,other
func VerifH_enum_{n}() {{
	tg := newTokenGenerator()
	if verifBool("known") {{
		i := verifChoose("which", len(verifE_{n}))
		tokenList = []string{{verifE_{n}[i], "next"}}
		v, err := parse{n}(&tg)
		verifAssert(err == nil, "a keyword of the enumeration is refused")
		verifAssert(v == {e['go']}(verifE_{n}[i]), "a keyword is read as another value")
		verifReach("known")
		return
	}}
	t := verifTok("token")
	for _, k := range verifE_{n} {{
		verifAssume(t != k)
	}}
	tokenList = []string{{t, "next"}}
	_, err := parse{n}(&tg)
	verifAssert(err != nil, "a word that is no keyword of the enumeration is accepted")
	verifReach("other")
}}
""")
print("modes", {o[3]: modes(o[3]) for o in MOD})
