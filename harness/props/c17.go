package props

import (
	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() { Registry["C17"] = C17_Determinism }

var strategies = []models.MissingValueStrategy{"", models.MissingValueStrategy("lastPrediction"), models.MissingValueStrategy("nullPrediction"), models.MissingValueStrategy("defaultChild"),
	models.MissingValueStrategy("weightedConfidence"), models.MissingValueStrategy("aggregateNodes")}

// sameOut states that two evaluations gave the same result.
func sameOut(a evaluation.DataRow, aerr error, b evaluation.DataRow, berr error, what string) {
	sym.Assert((aerr == nil) == (berr == nil), what+": one evaluation fails, the other does not")
	sym.Assert((a == nil) == (b == nil), what+": one evaluation has a prediction, the other has none")
	sym.Assert(len(a) == len(b), what+": different output fields")
	for k, v := range a {
		w, ok := b[k]
		sym.Assert(ok, what+": different output fields")
		switch x := v.Raw().(type) {
		case nil:
			sym.Assert(w.Raw() == nil, what+": different values")
		case float64:
			y, ok := w.Raw().(float64)
			sym.Assert(ok, what+": values of different types")
			sym.Assert(sym.SameF(x, y), what+": different values")
		case string:
			y, ok := w.Raw().(string)
			sym.Assert(ok, what+": values of different types")
			sym.Assert(x == y, what+": different values")
		case bool:
			y, ok := w.Raw().(bool)
			sym.Assert(ok, what+": values of different types")
			sym.Assert(x == y, what+": different values")
		case int:
			y, ok := w.Raw().(int)
			sym.Assert(ok, what+": values of different types")
			sym.Assert(x == y, what+": different values")
		default:
			sym.Assert(v.Float64() == w.Float64(), what+": different values")
		}
	}
}

func cloneRow(r evaluation.DataRow) evaluation.DataRow {
	c := evaluation.DataRow{}
	for k, v := range r {
		c[k] = v
	}
	return c
}

// anyTree is a classification or regression tree of a root and children guarded by p0, p1 and the sign of x.
func anyTree(name string, strategy models.MissingValueStrategy, classification bool, symbolic bool) *models.TreeModel {
	m := &models.TreeModel{FunctionName: models.MiningFunction("regression"), MissingValueStrategy: strategy, MissingValuePenalty: 0.5, MiningSchema: targetSchema}
	if classification {
		m.FunctionName = models.MiningFunction("classification")
	}
	node := func(id string, p models.Predicate, a, b, c models.Number) models.Node {
		n := models.Node{ID: id, Score: "1", RecordCount: 10, Predicate: p}
		if classification {
			n.Score = "A"
			n.ScoreDistributions = []models.ScoreDistribution{{Value: "A", RecordCount: a}, {Value: "B", RecordCount: b}, {Value: "C", RecordCount: c}}
		}
		return n
	}
	a, b, c := models.Number(4), models.Number(4), models.Number(2)
	if symbolic {
		b = []models.Number{4, 3, 5}[sym.Choose(name+"count", 3)] // a tie or not
	}
	root := node("r", &models.True{}, 5, 5, 5)
	root.DefaultChild = "k0"
	k0 := node("k0", isTrue(0), a, b, c)
	if symbolic && (strategy == "" || strategy == models.MissingValueStrategy("lastPrediction") || strategy == models.MissingValueStrategy("nullPrediction")) {
		for i := range k0.ScoreDistributions {
			p := models.ProbNumber(sym.Float64(name + "prob" + digit[i]))
			sym.Assume(sym.And(p >= 0, p <= 1))
			k0.ScoreDistributions[i].Probability = &p
		}
	}
	k1 := node("k1", isTrue(1), 3, 3, 4)
	k1.Nodes = []models.Node{node("k10", &models.SimplePredicate{Field: "x", Operator: models.SimplePredicateOperator("greaterThan"), Value: "0"}, 1, 2, 2), node("k11", &models.True{}, 2, 1, 2)}
	k1.Nodes[0].Score, k1.Score = "3", "2"
	if classification {
		// declared probabilities beside a label without records
		p, q := models.ProbNumber(0.25), models.ProbNumber(0.5)
		k1.Nodes[1].ScoreDistributions = []models.ScoreDistribution{{Value: "A", Probability: &q, Confidence: &p}, {Value: "B", RecordCount: 2}, {Value: "C", RecordCount: 2}}
	}
	if strategy == "" || strategy == models.MissingValueStrategy("lastPrediction") {
		// x decides, or p0 where x is missing
		k1.Nodes[0].Predicate = &models.CompoundPredicate{BooleanOperator: models.CompoundPredicateOperator("surrogate"), Predicates: []models.Predicate{k1.Nodes[0].Predicate, isTrue(0), &models.False{}}}
	}
	root.Nodes = []models.Node{k0, k1}
	m.Node = root
	return m
}

// anyModel is one of several models over p0, p1 and x, one for every kind of evaluation.
func anyModel(symbolic bool) (*models.DataDictionary, models.ModelElement, string) {
	dd := dict(append(boolFields(2), doubleField("x"), doubleField("y1"), yField("A", "B", "C"))...)
	k := sym.Choose("model", 13)
	switch k {
	case 0, 1, 2, 3, 4, 5:
		s := strategies[k]
		return dd, anyTree("", s, true, symbolic), "classification tree, strategy " + string(s)
	case 6:
		s := strategies[sym.Choose("strategy", 4)]
		return dd, anyTree("", s, false, false), "regression tree, strategy " + string(s)
	case 7, 8:
		method := models.MultipleModelMethod("sum")
		if k == 8 {
			method = models.MultipleModelMethod("average")
		}
		t2 := &models.RegressionModel{FunctionName: models.MiningFunction("classification"), RegressionNormalizationMethod: models.RegressionNormalizationMethod("logit"),
			RegressionTables: []models.RegressionTable{linear("A", 0.5, "x", 2.0), linear("B", 0)}, Output: outputs("probability(A)", "probability(B)")}
		t2.Output.Fields[0].Value, t2.Output.Fields[1].Value = "A", "B"
		e := ensemble(models.MiningFunction("classification"), method, always(anyTree("", models.MissingValueStrategy("aggregateNodes"), true, false)), guarded(isTrue(0), t2))
		e.Output = outputs("probability(A)", "probability(B)")
		f, c := 2.0, 0.25
		e.Targets = models.Targets{Targets: []models.Target{{Field: "probability(C)", RescaleFactor: &f, RescaleConstant: &c}}}
		equip(e, symbolic)
		return dd, e, string(method) + " ensemble"
	case 9:
		e := ensemble(models.MiningFunction("regression"), models.MultipleModelMethod("modelChain"))
		first := "x"
		if equip(e, symbolic) {
			first = "d"
		}
		e.Segmentation.Segments = ensemble("", "", always(regression("o0", linear("", 1, first, 1.0))),
			guarded(isTrue(1), regression("o1", linear("", 0, "o0", 2.0, "x", 1.0))), always(regression("o2", linear("", 0, "o0", 3.0)))).Segmentation.Segments
		return dd, e, "model chain"
	case 10:
		e := ensemble(models.MiningFunction("classification"), models.MultipleModelMethod("selectFirst"), guarded(isTrue(0), anyTree("", models.MissingValueStrategy("weightedConfidence"), true, false)),
			guarded(isTrue(1), anyTree("", models.MissingValueStrategy("lastPrediction"), false, false)))
		equip(e, symbolic)
		return dd, e, "selectFirst ensemble"
	}
	if k == 12 {
		// the sum of exponentials has another last digit in another order
		m := &models.RegressionModel{FunctionName: models.MiningFunction("classification"), RegressionNormalizationMethod: models.RegressionNormalizationMethod("softmax"),
			RegressionTables: []models.RegressionTable{linear("A", -2.83), linear("B", 2.01), linear("C", -0.4)}, Output: outputs("pa", "pb", "pc")}
		for i, c := range []string{"A", "B", "C"} {
			m.Output.Fields[i].Value = c
		}
		return dd, m, "softmax"
	}
	m := &models.RegressionModel{FunctionName: models.MiningFunction("classification"), RegressionNormalizationMethod: models.RegressionNormalizationMethod("simplemax"),
		RegressionTables: []models.RegressionTable{linear("A", 3, "x", 0.5), linear("B", 2), linear("C", 1, "y1", 1.0)}, Output: outputs("pc", "pb", "pa")}
	for i, c := range []string{"C", "B", "A"} {
		m.Output.Fields[i].Value = c
	}
	return dd, m, "multiclass regression"
}

// equip gives an ensemble replacement values, derived fields, both or neither (few: both for chains only), and tells whether it has derived fields.
func equip(e *models.MiningModel, few bool) bool {
	k := 0
	if e.Segmentation.MultipleModelMethod == models.MultipleModelMethod("modelChain") {
		k = 3
	}
	if !few || sym.Bound(0, 1) == 1 {
		k = sym.Choose("equipment", 4)
	}
	if k&1 != 0 {
		r, b := "0.5", "true"
		e.MiningSchema.MiningFields = []models.MiningField{{Name: "x", MissingValueReplacement: &r}, {Name: "y1", MissingValueReplacement: &r}, {Name: "p1", MissingValueReplacement: &b}}
	}
	if k&2 != 0 {
		e.LocalTransformations.DerivedFields = []models.DerivedField{{Name: "d", DataType: models.DataType("double"), OpType: models.OpType("continuous"),
			Expression: &models.Apply{Function: "sum", Expressions: []models.Expression{&models.FieldRef{Field: "x"}, &models.FieldRef{Field: "y1"}}}}}
	}
	return k&2 != 0
}

// anyRow is a row for anyModel.
// extra: 0 has no y1, 1 has it as a number; 2 and 3 have x and y1 as text and as integers.
func anyRow(name string, extra int) evaluation.DataRow {
	r := evaluation.DataRow{}
	for i := 0; i < 2; i++ {
		switch sym.Choose(name+"p"+digit[i], 3) {
		case 0:
			r[pname(i)] = evaluation.NewValue(sym.Bool(name + "v" + digit[i]))
		case 1:
			r[pname(i)] = evaluation.NewValue(nil)
		}
	}
	if sym.Choose(name+"x", 2) == 1 {
		switch extra {
		case 2:
			r["x"] = evaluation.NewValue("2.5")
		case 3:
			r["x"] = evaluation.NewValue(2)
		default:
			x := sym.Float64(name + "x")
			sym.Assume(sym.And(x > -1000, x < 1000))
			r["x"] = evaluation.NewValue(x)
		}
	}
	switch extra {
	case 1:
		r["y1"] = evaluation.NewValue(1.5)
	case 2:
		r["y1"] = evaluation.NewValue("1.5")
	case 3:
		r["y1"] = evaluation.NewValue(3)
	}
	return r
}

// C17: the result is a function of model and row.
func C17_Determinism() {
	dd, mdl, what := anyModel(true)
	m := build(dd, mdl)
	row := anyRow("", sym.Choose("extra", 2))
	out, err := m.Evaluate(cloneRow(row))
	if err != nil {
		sym.Reach("error")
	} else if len(out) > 0 {
		sym.Reach("prediction")
	}
	if sym.Choose("history", 2) == 1 {
		// other rows in between
		for i := 0; i < sym.Bound(1, 2); i++ {
			m.Evaluate(anyRow("other", 1-i))
		}
		o2, e2 := m.Evaluate(cloneRow(row))
		sameOut(out, err, o2, e2, what+" after other rows")
		return
	}
	sym.PermuteMaps()
	o2, e2 := m.Evaluate(cloneRow(row))
	sameOut(out, err, o2, e2, what+" with another map iteration order")
	if sym.Bound(0, 1) == 1 {
		m2 := build(dd, mdl)
		o2, e2 = m2.Evaluate(cloneRow(row))
		sameOut(out, err, o2, e2, what+" built with another map iteration order")
	}
}
