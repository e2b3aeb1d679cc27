package props

import (
	"reflect"

	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() {
	Registry["C22"] = C22_Tree
	Registry["C23"] = C23_Elements
}

// attrSpec is an attribute: kind s (text), f (number), i (integer), u (natural number), b (boolean), y (yes/no);
// opt when an absent attribute is nil; def is what an absent or empty attribute reads as.
type attrSpec struct {
	name string
	kind byte
	opt  bool
	def  string
}

// kidSpec is a child of one of the names; many when it repeats.
type kidSpec struct {
	many  bool
	names []string
}

type elemSpec struct {
	name  string
	tree  bool // part of a tree model
	attrs []attrSpec
	kids  []kidSpec
	make  func() (interface{}, func() []interface{}, func() [][]string)
}

var elemSpecs []elemSpec

// mark is the value of the last Extension of an element, which identifies it.
func mark(e []models.Extension) string {
	if len(e) == 0 {
		return "-"
	}
	return extMark(e[len(e)-1])
}

func extMark(e models.Extension) string {
	if e.Value == nil {
		return "nil"
	}
	return *e.Value
}

// printable is an n-character text of printable ASCII.
func printable(name string, n int) string {
	b := make([]byte, n)
	ok := true
	for i := range b {
		c := sym.Byte(name + digit[i])
		ok = sym.And(ok, c >= ' ', c <= '~')
		b[i] = c
	}
	sym.Assume(ok)
	return string(b)
}

// plain is an n-character text that needs no escaping and no trimming.
func plain(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		c := sym.Byte(name + digit[i])
		sym.Assume(sym.And(c > ' ', c <= '~', c != '<', c != '>', c != '&', c != '"', c != '\''))
		b[i] = c
	}
	return string(b)
}

// absent is the decoded value of an absent attribute.
func absent(a attrSpec) interface{} {
	if a.opt {
		return nil
	}
	switch a.kind {
	case 's':
		return a.def
	case 'f':
		return 0.0
	case 'i', 'u':
		return int64(0)
	}
	return false
}

// attrVal is an arbitrary value of an attribute and its text.
func attrVal(a attrSpec, name string) (interface{}, string) {
	switch a.kind {
	case 's':
		s := printable(name, 2)
		return s, s
	case 'f':
		f := sym.Float64(name)
		sym.Assume(sym.Finite(f))
		return f, sym.FormatF(f)
	case 'i':
		i := sym.Int64(name)
		return i, sym.FormatI(i)
	case 'u':
		i := sym.Int64(name)
		sym.Assume(i >= 0)
		return i, sym.FormatI(i)
	case 'y':
		if sym.Choose(name+"yes", 2) == 1 {
			return true, "yes"
		}
		return false, "no"
	}
	k := sym.Choose(name+"bool", 4)
	return k < 2, []string{"true", "1", "false", "0"}[k]
}

// wordVal is a value that some type of attribute takes: a boolean word, a number with a fraction and so on.
func wordVal(a attrSpec) (v interface{}, s string, ok bool) {
	s = []string{"true", "false", "yes", "no", "YES", "off", "100", "1.5", "2e3", "-7"}[sym.Choose("word", 10)]
	switch a.kind {
	case 's':
		return s, s, true
	case 'f':
		f := map[string]float64{"100": 100, "1.5": 1.5, "2e3": 2000, "-7": -7}
		x, ok := f[s]
		return x, s, ok
	case 'i':
		i := map[string]int64{"100": 100, "-7": -7}
		x, ok := i[s]
		return x, s, ok
	case 'u':
		return int64(100), s, s == "100"
	case 'y':
		return s == "yes", s, s == "yes" || s == "no"
	}
	return s == "true", s, s == "true" || s == "false"
}

// oddVal is an unusual text of an attribute: its value, and whether it is one.
func oddVal(a attrSpec, name string) (v interface{}, s string, ok bool) {
	k := sym.Choose("length", 5)
	if k == 4 {
		return wordVal(a)
	}
	n := []int{0, 1, 3, 6}[k]
	if a.kind == 's' {
		s = printable(name, n)
		if n == 0 && a.def != "" {
			return a.def, s, true
		}
		return s, s, true
	}
	if n > 2 {
		n = sym.Bound(2, n/2+1)
	}
	s = plain(name, n)
	if n == 0 {
		if a.kind == 'y' {
			return nil, s, false
		}
		a.opt = false
		return absent(a), s, true
	}
	switch a.kind {
	case 'f':
		for i := range s {
			sym.Assume(s[i] != '_') // strconv reads digits separated by underscores
		}
		return "?", s, realText(s)
	case 'i':
		_, ok = integer(s)
		return "?", s, ok
	case 'u':
		_, ok = integer(s)
		return "?", s, sym.And(ok, s[0] != '+', s[0] != '-')
	case 'y':
		return s == "yes", s, sym.Or(s == "yes", s == "no")
	}
	t := oneOf(s, "1", "t", "T", "true", "TRUE", "True")
	return t, s, sym.Or(t, oneOf(s, "0", "f", "F", "false", "FALSE", "False"))
}

func checkAttrs(el string, as []attrSpec, got, want []interface{}) {
	for i, a := range as {
		what := el + " attribute " + a.name
		g, w := got[i], want[i]
		if w == nil || g == nil {
			sym.Assert(g == nil && w == nil, what+" present or absent")
			continue
		}
		switch w := w.(type) {
		case string:
			if w == "?" && a.kind != 's' {
				continue
			}
			sym.Assert(g.(string) == w, what)
		case float64:
			sym.Assert(g.(float64) == w, what)
		case int64:
			sym.Assert(g.(int64) == w, what)
		case bool:
			sym.Assert(g.(bool) == w, what)
		}
	}
}

// attrsOf decodes an element with any of its attributes in several orders.
func attrsOf(e elemSpec) {
	n := len(e.attrs)
	mode := sym.Choose("mode", 5)
	at := 0
	if mode > 1 {
		at = sym.Choose("at", n)
	}
	x := &sym.X{Name: e.name}
	want := make([]interface{}, n)
	odd := true
	for j := 0; j < n; j++ {
		i := j
		switch mode {
		case 1: // reversed
			i = n - 1 - j
		case 2: // starting with at
			i = (at + j) % n
		}
		a := e.attrs[i]
		if mode == 3 && i == at || mode == 4 && i != at {
			if mode == 4 || sym.Choose("drop", 2) == 0 {
				want[i] = absent(a)
				continue
			}
			var s string
			want[i], s, odd = oddVal(a, a.name)
			x.Attrs = append(x.Attrs, sym.A{Name: a.name, Val: s})
			continue
		}
		v, s := attrVal(a, a.name)
		want[i] = v
		x.Attrs = append(x.Attrs, sym.A{Name: a.name, Val: s})
	}
	p, attrs, kids := e.make()
	err := sym.DecodeXML(x, p)
	if !odd {
		sym.Reach("rejected")
		sym.Assert(err != nil, e.name+": an attribute that is not of its type is accepted")
		return
	}
	sym.Reach("decoded")
	sym.Assert(err == nil, e.name+": does not decode")
	checkAttrs(e.name, e.attrs, attrs(), want)
	for i, k := range kids() {
		sym.Assert(len(k) == 0, e.name+": a child "+e.kids[i].names[0]+" out of nowhere")
	}
}

// child is an element identified by the text m.
func child(name, m string) *sym.X {
	switch name {
	case "Extension":
		return &sym.X{Name: name, Attrs: []sym.A{{Name: "value", Val: m}}}
	case "Constant":
		return &sym.X{Name: name, Kids: []*sym.X{{Text: m}}}
	}
	return &sym.X{Name: name, Kids: []*sym.X{{Name: "Extension", Attrs: []sym.A{{Name: "value", Val: m}}}}}
}

// kidsOf decodes an element with three of its children in every order.
func kidsOf(e elemSpec) {
	n := len(e.kids)
	want := make([][]string, n)
	last := -1
	x := &sym.X{Name: e.name}
	for j := 0; j < 3; j++ {
		i := 0
		if j < 2 {
			i = sym.Choose("kid"+digit[j], n+1) - 1
		} else {
			i = sym.Choose("again", 2) - 1
			if i == 0 {
				i = last
			}
		}
		if j == 0 {
			last = i
		}
		if i < 0 || !e.kids[i].many && len(want[i]) > 0 {
			continue
		}
		k := e.kids[i]
		name := k.names[0]
		m := printable("m"+digit[j], 2)
		if len(k.names) > 1 {
			n := i + j
			if j == 0 || len(k.names) < 6 {
				n = sym.Choose("name"+digit[j], len(k.names))
			}
			name = k.names[n%len(k.names)]
			want[i] = append(want[i], name+":"+m)
		} else {
			want[i] = append(want[i], m)
		}
		x.Kids = append(x.Kids, &sym.X{Text: "\n  "}, child(name, m))
	}
	p, _, kids := e.make()
	sym.Assert(sym.DecodeXML(x, p) == nil, e.name+": children do not decode")
	got := kids()
	for i, k := range e.kids {
		what := e.name + " children " + k.names[0]
		sym.Assert(len(got[i]) == len(want[i]), what+": wrong number")
		for j := range want[i] {
			sym.Assert(got[i][j] == want[i][j], what+": wrong content or order")
		}
	}
	sym.Reach("children")
}

func elements(tree bool) {
	if sym.Choose("siblings", 2) == 1 {
		siblingsOf(tree)
		return
	}
	var es []elemSpec
	for _, e := range elemSpecs {
		if e.tree == tree {
			es = append(es, e)
		}
	}
	e := es[sym.Choose("element", len(es))]
	if len(e.attrs) > 0 && (len(e.kids) == 0 || sym.Choose("part", 2) == 0) {
		attrsOf(e)
	} else {
		kidsOf(e)
	}
}

func idx(n int) string { return digit[n/10] + digit[n%10] }

// doc builds a tree node document and the node it must decode to.
type doc struct{ n int }

func (d *doc) txt() string {
	d.n++
	return printable("t"+idx(d.n)+".", 2)
}

func (d *doc) num() (float64, string) {
	d.n++
	f := sym.Float64("n" + idx(d.n))
	sym.Assume(sym.Finite(f))
	return f, sym.FormatF(f)
}

func (d *doc) predicate(depth int, name string) (*sym.X, models.Predicate) {
	kinds := 5
	if depth == 0 {
		kinds = 4
	}
	switch sym.Choose(name+"kind", kinds) {
	case 0:
		return &sym.X{Name: "True"}, &models.True{}
	case 1:
		return &sym.X{Name: "False"}, &models.False{}
	case 2:
		f, o, v := d.txt(), d.txt(), d.txt()
		x := &sym.X{Name: "SimplePredicate", Attrs: []sym.A{{"operator", o}, {"value", v}, {"field", f}}}
		return x, &models.SimplePredicate{Field: models.FieldName(f), Operator: models.SimplePredicateOperator(o), Value: v}
	case 3:
		f, o, t, c := d.txt(), d.txt(), d.txt(), d.txt()
		x := &sym.X{Name: "SimpleSetPredicate", Attrs: []sym.A{{"booleanOperator", o}, {"field", f}}, Kids: []*sym.X{{Name: "Array", Attrs: []sym.A{{"n", "12"}, {"type", t}}, Kids: []*sym.X{{Text: c}}}}}
		n := 12
		return x, &models.SimpleSetPredicate{Field: models.FieldName(f), BooleanOperator: models.SimpleSetPredicateOperator(o), Array: models.Array{N: &n, Type: models.ArrayTypeType(t), RawValue: c}}
	}
	o := d.txt()
	x := &sym.X{Name: "CompoundPredicate", Attrs: []sym.A{{"booleanOperator", o}}}
	p := &models.CompoundPredicate{BooleanOperator: models.CompoundPredicateOperator(o)}
	for i := 0; i < 2; i++ {
		k, q := d.predicate(depth-1, name+digit[i])
		x.Kids = append(x.Kids, k, &sym.X{Name: "#comment", Text: "c"})
		p.Predicates = append(p.Predicates, q)
	}
	return x, p
}

func (d *doc) node(depth int, name string) (*sym.X, models.Node) {
	id, score, def := d.txt(), d.txt(), d.txt()
	rc, rcs := d.num()
	n := models.Node{ID: id, Score: score, DefaultChild: def, RecordCount: models.Number(rc)}
	x := &sym.X{Name: "Node", Attrs: []sym.A{{"score", score}, {"id", id}, {"recordCount", rcs}, {"defaultChild", def}}}
	pd := 0
	if depth > 0 {
		pd = 1
	}
	p, q := d.predicate(pd, name+"p")
	n.Predicate = q
	at := sym.Choose(name+"at", 3) // where the predicate stands
	if at == 0 {
		x.Kids = append(x.Kids, p)
	}
	kids := 0
	if depth > 0 {
		kids = 2
	}
	for i := 0; i < 2; i++ {
		v := d.txt()
		c, cs := d.num()
		x.Kids = append(x.Kids, &sym.X{Name: "ScoreDistribution", Attrs: []sym.A{{"recordCount", cs}, {"value", v}}})
		n.ScoreDistributions = append(n.ScoreDistributions, models.ScoreDistribution{Value: v, RecordCount: models.Number(c)})
		if i < kids {
			k, m := d.node(depth-1, name+digit[i])
			x.Kids = append(x.Kids, k)
			n.Nodes = append(n.Nodes, m)
		}
		if at == i+1 {
			x.Kids = append(x.Kids, p)
		}
	}
	return x, n
}

// C22: every part of a tree model document is decoded.
func C22_Tree() {
	switch sym.Choose("scenario", 4) {
	case 0, 1:
		elements(true)
	case 2: // predicates
		d := &doc{}
		x, p := d.predicate(2, "p")
		sym.Assume(x.Name == "CompoundPredicate")
		got := &models.CompoundPredicate{}
		sym.Assert(sym.DecodeXML(x, got) == nil, "a predicate does not decode")
		sym.Assert(reflect.DeepEqual(got, p), "nested predicates differ")
		sym.Reach("predicate")
	case 3: // nodes
		d := &doc{}
		x, n := d.node(1, "n")
		name := d.txt()
		got := &models.TreeModel{}
		sym.Assert(sym.DecodeXML(&sym.X{Name: "TreeModel", Attrs: []sym.A{{"modelName", name}}, Kids: []*sym.X{{Name: "MiningSchema"}, x}}, got) == nil, "a tree does not decode")
		sym.Assert(got.ModelName == name, "model name")
		sym.Assert(reflect.DeepEqual(got.Node, n), "nested nodes differ")
		sym.Reach("node")
	}
}

// C23: every other element is decoded, and so are texts and tables.
func C23_Elements() {
	switch sym.Choose("scenario", 4) {
	case 0:
		elements(false)
	case 1: // rows of tables
		table := &sym.X{Name: "InlineTable"}
		n := sym.Choose("rows", 4)
		var cells [][]string
		for i := 0; i < n; i++ {
			a, b := printable("a"+digit[i], 3), printable("b"+digit[i], 1)
			cells = append(cells, []string{a, b})
			r := &sym.X{Name: "row", Kids: []*sym.X{{Name: "a", Kids: []*sym.X{{Text: a}}}, {Text: " "}, {Name: "out", Kids: []*sym.X{{Text: b}}}}}
			if sym.Choose("empty"+digit[i], 2) == 1 {
				r.Kids = append(r.Kids, &sym.X{Name: "none"})
				cells[i] = append(cells[i], "")
			}
			table.Kids = append(table.Kids, r)
		}
		var got models.InlineTable
		switch sym.Choose("in", 4) {
		case 0:
			sym.Assert(sym.DecodeXML(table, &got) == nil, "a table does not decode")
		case 1:
			m := &models.MapValues{}
			sym.Assert(sym.DecodeXML(&sym.X{Name: "MapValues", Kids: []*sym.X{{Name: "FieldColumnPair"}, table}}, m) == nil && len(m.InlineTables) == 1, "a table of MapValues does not decode")
			got = m.InlineTables[0]
		case 2:
			m := &models.ModelVerification{}
			sym.Assert(sym.DecodeXML(&sym.X{Name: "ModelVerification", Kids: []*sym.X{table}}, m) == nil, "a verification table does not decode")
			got = m.InlineTable
		case 3:
			m := &models.ChildParent{}
			sym.Assert(sym.DecodeXML(&sym.X{Name: "ChildParent", Kids: []*sym.X{{Name: "FieldColumnPair"}, table}}, m) == nil, "a table of ChildParent does not decode")
			t, ok := m.Table.(*models.InlineTable)
			sym.Assert(ok, "a table of ChildParent is missing")
			got = *t
		}
		sym.Assert(len(got.Rows) == n, "wrong number of rows")
		for i, r := range got.Rows {
			sym.Assert(len(r) == len(cells[i]), "wrong number of columns")
			for j, c := range cells[i] {
				s, ok := r[[]string{"a", "out", "none"}[j]].(string)
				sym.Assert(ok && s == c, "wrong cell")
			}
		}
		sym.Reach("table")
	case 2: // nested expressions
		d := &doc{}
		x, e := d.expression(2, "e")
		switch sym.Choose("in", 3) {
		case 0:
			f := &models.DerivedField{}
			sym.Assert(sym.DecodeXML(&sym.X{Name: "DerivedField", Kids: []*sym.X{x}}, f) == nil, "a derived field does not decode")
			sym.Assert(reflect.DeepEqual(f.Expression, e), "nested expressions differ")
		case 1:
			f := &models.DefineFunction{}
			sym.Assert(sym.DecodeXML(&sym.X{Name: "DefineFunction", Kids: []*sym.X{{Name: "ParameterField"}, x}}, f) == nil, "a function does not decode")
			sym.Assert(reflect.DeepEqual(f.Expression, e), "nested expressions differ")
			sym.Assert(len(f.ParameterFields) == 1, "parameters")
		case 2:
			f := &models.LocalTransformations{}
			n := d.txt()
			sym.Assert(sym.DecodeXML(&sym.X{Name: "LocalTransformations", Kids: []*sym.X{{Name: "DerivedField", Attrs: []sym.A{{"name", n}}, Kids: []*sym.X{x}}, {Name: "DerivedField"}}}, f) == nil, "local transformations do not decode")
			sym.Assert(len(f.DerivedFields) == 2, "number of derived fields")
			sym.Assert(reflect.DeepEqual(f.DerivedFields[0].Expression, e), "nested expressions differ")
			sym.Assert(f.DerivedFields[0].Name == n, "name of a derived field")
		}
		sym.Reach("expression")
	case 3: // ensembles of trees and regressions
		d := &doc{}
		mm := &sym.X{Name: "MiningModel"}
		sg := &sym.X{Name: "Segmentation"}
		mm.Kids = []*sym.X{{Name: "MiningSchema"}, sg}
		n := sym.Choose("segments", sym.Bound(2, 3)) + 1
		var want []models.Segment
		for i := 0; i < n; i++ {
			id, name := d.txt(), d.txt()
			p, q := d.predicate(0, "p"+digit[i])
			var x *sym.X
			var m models.ModelElement
			switch sym.Choose("model"+digit[i], 3) {
			case 0:
				v, vs := d.num()
				x = &sym.X{Name: "RegressionModel", Attrs: []sym.A{{"modelName", name}}, Kids: []*sym.X{{Name: "RegressionTable", Attrs: []sym.A{{"intercept", vs}}, Kids: []*sym.X{{Name: "NumericPredictor", Attrs: []sym.A{{"name", "x"}}}}}}}
				m = &models.RegressionModel{ModelName: name, RegressionTables: []models.RegressionTable{{Intercept: v, NumericPredictor: []models.NumericPredictor{{Name: "x"}}}}}
			case 1:
				x = &sym.X{Name: "TreeModel", Attrs: []sym.A{{"modelName", name}}, Kids: []*sym.X{{Name: "Node", Kids: []*sym.X{{Name: "True"}}}}}
				m = &models.TreeModel{ModelName: name, Node: models.Node{Predicate: &models.True{}}}
			case 2:
				x = &sym.X{Name: "MiningModel", Attrs: []sym.A{{"functionName", name}}}
				m = &models.MiningModel{FunctionName: models.MiningFunction(name)}
			}
			s := &sym.X{Name: "Segment", Attrs: []sym.A{{"id", id}}, Kids: []*sym.X{p, x}}
			if sym.Choose("model first"+digit[i], 2) == 1 {
				s.Kids = []*sym.X{x, p}
			}
			sg.Kids = append(sg.Kids, s)
			want = append(want, models.Segment{Id: id, Predicates: []models.Predicate{q}, Models: []models.ModelElement{m}})
		}
		got := &models.PMML{}
		sym.Assert(sym.DecodeXML(&sym.X{Name: "PMML", Attrs: []sym.A{{"xmlns", "http://www.dmg.org/PMML-4_3"}, {"version", "4.3"}}, Kids: []*sym.X{{Name: "Header"}, {Name: "DataDictionary"}, mm}}, got) == nil, "an ensemble does not decode")
		sym.Assert(len(got.Models) == 1, "number of models")
		e, ok := got.Models[0].(*models.MiningModel)
		sym.Assert(ok, "kind of the model")
		sym.Assert(reflect.DeepEqual(e.Segmentation.Segments, want), "segments differ")
		sym.Reach("ensemble")
	}
}

func (d *doc) expression(depth int, name string) (*sym.X, models.Expression) {
	kinds := 4
	if depth == 0 {
		kinds = 3
	}
	switch sym.Choose(name+"kind", kinds) {
	case 0:
		t, c := d.txt(), d.txt()
		return &sym.X{Name: "Constant", Attrs: []sym.A{{"dataType", t}}, Kids: []*sym.X{{Text: c}}}, &models.Constant{DataType: models.DataType(t), Value: c}
	case 1:
		f := d.txt()
		return &sym.X{Name: "FieldRef", Attrs: []sym.A{{"field", f}}}, &models.FieldRef{Field: models.FieldName(f)}
	case 2:
		o, f, c := d.txt(), d.txt(), d.txt()
		x := &sym.X{Name: "MapValues", Attrs: []sym.A{{"outputColumn", o}}, Kids: []*sym.X{{Name: "FieldColumnPair", Attrs: []sym.A{{"field", f}, {"column", c}}}}}
		return x, &models.MapValues{OutputColumn: o, FieldColumnPairs: []models.FieldColumnPair{{Field: f, Column: c}}}
	}
	f := d.txt()
	x := &sym.X{Name: "Apply", Attrs: []sym.A{{"function", f}}}
	a := &models.Apply{Function: f, InvalidValueTreatment: models.InvalidValueTreatmentMethod("returnInvalid")}
	for i := 0; i < 2; i++ {
		k, e := d.expression(depth-1, name+digit[i])
		x.Kids = append(x.Kids, k)
		a.Expressions = append(a.Expressions, e)
	}
	return x, a
}
