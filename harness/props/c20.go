package props

import (
	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() { Registry["C20"] = C20_NoPanic }

type point struct{ x, y int }

// label is a value that prints itself.
type label struct{ s string }

func (l label) String() string { return l.s }

type ptrLabel struct{ s string }

func (l *ptrLabel) String() string { return l.s }

// text is an arbitrary text of at most n bytes.
func text(name string, n int) string {
	b := make([]byte, sym.Choose(name+"len", n+1))
	for i := range b {
		b[i] = sym.Byte(name + digit[i])
	}
	return string(b)
}

// anyValue is a value of any Go type.
func anyValue(name string) interface{} {
	k := sym.Choose(name+"type", 13+len(carriers))
	if k >= 13 {
		return number(name, k-13).v
	}
	switch k {
	case 0:
		return nil
	case 1:
		return sym.Bool(name)
	case 2:
		if name == "s" {
			return text(name, sym.Bound(2, 4))
		}
		return string([]byte{sym.Byte(name) | 0x40}) // no digit
	case 3:
		return []string{"", "abc", "1e400", "-0x1p-2", " 1", "NaN", "٣", "9223372036854775808", "true"}[sym.Choose(name+"text", 9)]
	case 4:
		return []int{1, 2}
	case 5:
		return map[string]int{"a": 1}
	case 6:
		return point{1, 2}
	case 7:
		return &point{1, 2}
	case 8:
		return label{"5"}
	case 9:
		return (*label)(nil)
	case 10:
		return (*ptrLabel)(nil)
	case 11:
		return evaluation.NewValue(1.0)
	}
	return []interface{}{1, "a"}
}

// oddModel is a model that may build although something about it is unusual.
func oddModel() (*models.DataDictionary, *models.TransformationDictionary, models.ModelElement) {
	td := &models.TransformationDictionary{}
	dd := dict(doubleField("x"), models.DataField{Name: "s", DataType: models.DataType("string")}, models.DataField{Name: "b", DataType: models.DataType("boolean")}, models.DataField{Name: "i", DataType: models.DataType("integer")},
		models.DataField{Name: "y", DataType: models.DataType("string")})
	fields := []string{"x", "s", "b", "i"}
	value := map[string]string{"x": "1.5", "s": "1", "b": "true", "i": "3"}
	plain := func(f string) models.Predicate {
		return &models.SimplePredicate{Field: models.FieldName(f), Operator: models.SimplePredicateOperator("lessOrEqual"), Value: value[f]}
	}
	simple := func(f string) models.Predicate {
		ops := []models.SimplePredicateOperator{models.SimplePredicateOperator("equal"), models.SimplePredicateOperator("notEqual"), models.SimplePredicateOperator("lessThan"), models.SimplePredicateOperator("lessOrEqual"),
			models.SimplePredicateOperator("greaterThan"), models.SimplePredicateOperator("greaterOrEqual"), models.SimplePredicateOperator("isMissing"), models.SimplePredicateOperator("isNotMissing"), "", "between"}
		return &models.SimplePredicate{Field: models.FieldName(f), Operator: ops[sym.Choose("operator", len(ops))], Value: value[f]}
	}
	leaf := func(p models.Predicate, anyStrategy bool) *models.TreeModel {
		t := &models.TreeModel{FunctionName: models.MiningFunction("classification"), MiningSchema: targetSchema, Node: models.Node{Score: "A", Predicate: &models.True{}, Nodes: []models.Node{{ID: "k", Score: "B", Predicate: p}}}}
		if anyStrategy {
			t.MissingValueStrategy = strategies[sym.Choose("strategy", len(strategies))]
		}
		return t
	}
	switch sym.Choose("odd", 7) {
	case 0:
		return dd, td, leaf(simple(fields[sym.Choose("field", 4)]), false)
	case 1: // predicates that are missing or empty
		var p models.Predicate
		switch sym.Choose("predicate", 6) {
		case 1:
			p = &models.CompoundPredicate{}
		case 2:
			p = &models.CompoundPredicate{BooleanOperator: models.CompoundPredicateOperator("surrogate")}
		case 3:
			p = &models.CompoundPredicate{BooleanOperator: models.CompoundPredicateOperator("and"), Predicates: []models.Predicate{nil, plain("x")}}
		case 4:
			p = &models.SimpleSetPredicate{}
		case 5:
			p = &models.SimpleSetPredicate{Field: "x", BooleanOperator: "isIn"}
		}
		return dd, td, leaf(p, true)
	case 2: // no target, scores that are not numbers, no scores
		t := leaf(plain("x"), true)
		t.MiningSchema = models.MiningSchema{}
		if sym.Choose("function", 2) == 1 {
			t.FunctionName = models.MiningFunction("regression")
		}
		t.Node.Score = []string{"", "x", "1"}[sym.Choose("score", 3)]
		t.Node.DefaultChild = []string{"", "k", "nobody"}[sym.Choose("default", 3)]
		return dd, td, t
	case 3: // record counts that add up to nothing, labels that are empty
		t := leaf(plain("x"), true)
		t.Node.Nodes[0].ScoreDistributions = [][]models.ScoreDistribution{{{Value: "A"}, {Value: "B"}}, {{Value: "", RecordCount: 1}}, {{Value: "A"}, {Value: ""}}, {{Value: ""}, {Value: "A", RecordCount: 2}}, {{Value: "A", RecordCount: -1}, {Value: "A", RecordCount: 1}}}[sym.Choose("labels", 5)]
		t.Node.Nodes = append(t.Node.Nodes, t.Node.Nodes[0])
		return dd, td, t
	case 4: // regression models with any number of tables and outputs
		r := &models.RegressionModel{RegressionNormalizationMethod: models.RegressionNormalizationMethod("logit")}
		r.FunctionName = []models.MiningFunction{models.MiningFunction("regression"), models.MiningFunction("classification"), ""}[sym.Choose("function", 3)]
		for i := sym.Choose("tables", 4); i > 0; i-- {
			r.RegressionTables = append(r.RegressionTables, linear("A", 1, "x", 2.0))
		}
		r.Output = outputs([]string{"a", "b", "c"}[:sym.Choose("outputs", 4)]...)
		return dd, td, r
	case 5: // ensembles with any segments
		e := ensemble(models.MiningFunction("classification"), []models.MultipleModelMethod{"", models.MultipleModelMethod("average"), models.MultipleModelMethod("modelChain"), models.MultipleModelMethod("selectFirst")}[sym.Choose("method", 4)])
		e.Targets = models.Targets{Targets: []models.Target{{}}}
		if e.Segmentation.MultipleModelMethod == "" || e.Segmentation.MultipleModelMethod == models.MultipleModelMethod("modelChain") {
			one := "1"
			for _, f := range fields {
				e.MiningSchema.MiningFields = append(e.MiningSchema.MiningFields, models.MiningField{Name: models.FieldName(f), MissingValueReplacement: &one})
			}
		}
		switch sym.Choose("segments", 5) {
		case 1:
			e.Segmentation.Segments = []models.Segment{{Models: []models.ModelElement{regression("y", linear("", 1, "x", 1.0))}}}
		case 2:
			e.Segmentation.Segments = []models.Segment{guarded(nil, regression("y", linear("", 1, "x", 1.0)))}
		case 3:
			e.Segmentation.Segments = []models.Segment{guarded(plain(fields[sym.Choose("field", 4)]), leaf(&models.False{}, false)), always(leaf(&models.True{}, false))}
		case 4:
			e.Segmentation.Segments = []models.Segment{{Predicates: []models.Predicate{&models.SimpleSetPredicate{}}, Models: []models.ModelElement{regression("y", linear("", 1))}}}
		}
		return dd, td, e
	}
	// derived fields
	ref := func(s string) models.Expression { return &models.FieldRef{Field: models.FieldName(s)} }
	mapped := func(f string, t ...models.InlineTable) models.Expression {
		return &models.MapValues{OutputColumn: "data:output", DataType: models.DataType("double"), FieldColumnPairs: []models.FieldColumnPair{{Field: f, Column: "data:input"}}, InlineTables: t}
	}
	exprs := []models.Expression{nil, &models.Apply{}, &models.Apply{Function: "sum"}, &models.Apply{Function: "if", Expressions: []models.Expression{ref("x"), ref("s"), nil}},
		&models.Apply{Function: "+", Expressions: []models.Expression{ref("x"), ref("s")}}, &models.Apply{Function: "/", Expressions: []models.Expression{ref("i"), ref("b")}},
		&models.MapValues{}, mapped("x"), mapped("s", models.InlineTable{Rows: []models.Row{{"input": "a"}, {}, nil, {"input": nil, "output": 3}}}), mapped("b", models.InlineTable{Rows: []models.Row{{"input": 5, "output": nil}}}),
		&models.Constant{}, &models.Constant{DataType: models.DataType("double"), Value: "x"}, &models.Apply{Function: "isMissing", Expressions: []models.Expression{mapped("x")}}, &models.FieldRef{}}
	lt := models.LocalTransformations{DerivedFields: []models.DerivedField{{Name: "d", DataType: models.DataType("double"), OpType: []models.OpType{"", models.OpType("continuous")}[sym.Choose("optype", 2)], Expression: exprs[sym.Choose("expression", len(exprs))]}}}
	switch sym.Choose("in", 3) {
	case 0:
		r := regression("y", linear("", 1, "d", 1.0))
		r.LocalTransformations = lt
		return dd, td, r
	case 1:
		t := leaf(&models.SimplePredicate{Field: "d", Operator: models.SimplePredicateOperator("lessThan"), Value: "1"}, false)
		t.LocalTransformations = lt
		return dd, td, t
	}
	e := ensemble(models.MiningFunction("regression"), models.MultipleModelMethod("modelChain"), always(regression("y", linear("", 1, "d", 1.0))))
	e.LocalTransformations = lt
	return dd, td, e
}

// C20: a panic of the code under test is reported by the engine.
func C20_NoPanic() {
	dd, td, mdl := oddModel()
	m, err := evaluation.NewModel(dd, td, mdl)
	if err != nil {
		sym.Reach("not built")
		return
	}
	row := evaluation.DataRow{}
	odd := sym.Choose("oddField", 4)
	fill := sym.Choose("fill", 2)
	for i, f := range []string{"x", "s", "b", "i"} {
		if i == odd {
			row[f] = evaluation.NewValue(anyValue(f))
		} else if fill == 1 {
			row[f] = evaluation.NewValue("1")
		}
	}
	out, err := m.Evaluate(row)
	sym.Reach("evaluated")
	_ = out
	_ = err
}
