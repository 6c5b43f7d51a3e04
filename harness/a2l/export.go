package a2l

// Access for the harnesses of the root package.

// VerifObject returns kind and name of an object found by its identifier.
func VerifObject(x interface{}) (string, string) {
	switch o := x.(type) {
	case axisPts:
		return "axisPts", o.name
	case Characteristic:
		return "characteristic", o.Name
	case CompuMethod:
		return "compuMethod", o.Name
	case CompuTab:
		return "compuTab", o.Name
	case CompuVTab:
		return "compuVTab", o.Name
	case CompuVTabRange:
		return "compuVTabRange", o.Name
	case function:
		return "function", o.name
	case group:
		return "group", o.groupName
	case measurement:
		return "measurement", o.name
	case RecordLayout:
		return "recordLayout", o.Name
	case SystemConstant:
		return "systemConstant", o.Name
	case unit:
		return "unit", o.name
	}
	return "other", ""
}

var VerifKinds = []string{"axisPts", "characteristic", "compuMethod", "compuTab", "compuVTab", "compuVTabRange",
	"function", "group", "measurement", "recordLayout", "systemConstant", "unit"}

// VerifAdd adds an object of the kind to the module.
func VerifAdd(m *Module, kind string, key string, name string) {
	switch kind {
	case "axisPts":
		if m.AxisPts == nil {
			m.AxisPts = map[string]axisPts{}
		}
		m.AxisPts[key] = axisPts{name: name, nameSet: true}
	case "characteristic":
		if m.Characteristics == nil {
			m.Characteristics = map[string]Characteristic{}
		}
		m.Characteristics[key] = Characteristic{Name: name}
	case "compuMethod":
		if m.CompuMethods == nil {
			m.CompuMethods = map[string]CompuMethod{}
		}
		m.CompuMethods[key] = CompuMethod{Name: name}
	case "compuTab":
		if m.CompuTabs == nil {
			m.CompuTabs = map[string]CompuTab{}
		}
		m.CompuTabs[key] = CompuTab{Name: name}
	case "compuVTab":
		if m.CompuVTabs == nil {
			m.CompuVTabs = map[string]CompuVTab{}
		}
		m.CompuVTabs[key] = CompuVTab{Name: name}
	case "compuVTabRange":
		if m.CompuVTabRanges == nil {
			m.CompuVTabRanges = map[string]CompuVTabRange{}
		}
		m.CompuVTabRanges[key] = CompuVTabRange{Name: name}
	case "function":
		if m.Functions == nil {
			m.Functions = map[string]function{}
		}
		m.Functions[key] = function{name: name}
	case "group":
		if m.Groups == nil {
			m.Groups = map[string]group{}
		}
		m.Groups[key] = group{groupName: name}
	case "measurement":
		if m.Measurements == nil {
			m.Measurements = map[string]measurement{}
		}
		m.Measurements[key] = measurement{name: name}
	case "recordLayout":
		if m.RecordLayouts == nil {
			m.RecordLayouts = map[string]RecordLayout{}
		}
		m.RecordLayouts[key] = RecordLayout{Name: name}
	case "systemConstant":
		if m.ModPar.SystemConstants == nil {
			m.ModPar.SystemConstants = map[string]SystemConstant{}
		}
		m.ModPar.SystemConstants[key] = SystemConstant{Name: name}
	case "unit":
		if m.Units == nil {
			m.Units = map[string]unit{}
		}
		m.Units[key] = unit{name: name}
	}
}

// VerifSame tells whether two files have the same contents (of the kinds the harnesses use).
func VerifSame(a, w A2L) bool {
	r := verifEq_asap2Version(a.Asap2Version, w.Asap2Version)
	r = verifAnd(r, a.Project.Name == w.Project.Name)
	r = verifAnd(r, a.Project.longIdentifier == w.Project.longIdentifier)
	if len(a.Project.Modules) != len(w.Project.Modules) {
		return false
	}
	for i := range w.Project.Modules {
		x, y := &a.Project.Modules[i], &w.Project.Modules[i]
		r = verifAnd(r, x.Name == y.Name)
		r = verifAnd(r, x.longIdentifier == y.longIdentifier)
		if verifCounts(x) != verifCounts(y) {
			return false
		}
		for k, o := range y.Measurements {
			p, ok := x.Measurements[k]
			r = verifAnd(verifAnd(r, ok), verifEq_measurement(p, o))
		}
		for k, o := range y.Characteristics {
			p, ok := x.Characteristics[k]
			r = verifAnd(verifAnd(r, ok), verifEq_Characteristic(p, o))
		}
		for k, o := range y.RecordLayouts {
			p, ok := x.RecordLayouts[k]
			r = verifAnd(verifAnd(r, ok), verifEq_RecordLayout(p, o))
		}
		for k, o := range y.CompuMethods {
			p, ok := x.CompuMethods[k]
			r = verifAnd(verifAnd(r, ok), verifEq_CompuMethod(p, o))
		}
	}
	return r
}
