package props

import (
	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() { Registry["C21"] = C21_Unsupported }

// word is an arbitrary text, or one of the given words.
func word(name string, n int, known ...string) string {
	k := sym.Choose(name+"known", len(known)+1)
	if k < len(known) {
		return known[k]
	}
	return text(name, n)
}

func oneOf(s string, known ...string) bool {
	r := false
	for _, k := range known {
		r = sym.Or(r, s == k)
	}
	return r
}

// number reports whether at most three characters are a decimal number or one of its special names.
func realText(s string) bool {
	lower := func(c, l byte) bool { return sym.Or(c == l, c == l-32) }
	dig := func(c byte) bool { return sym.And(c >= '0', c <= '9') }
	ok := false
	if len(s) == 3 {
		ok = sym.Or(sym.And(lower(s[0], 'i'), lower(s[1], 'n'), lower(s[2], 'f')), sym.And(lower(s[0], 'n'), lower(s[1], 'a'), lower(s[2], 'n')), // special
			sym.And(dig(s[0]), lower(s[1], 'e'), dig(s[2]))) // exponent
	}
	if len(s) > 0 && sym.Or(s[0] == '+', s[0] == '-') {
		s = s[1:]
	}
	digits, points, other := 0, 0, 0
	for i := 0; i < len(s); i++ {
		if dig(s[i]) {
			digits++
		} else if s[i] == '.' {
			points++
		} else {
			other++
		}
	}
	return sym.Or(ok, sym.And(digits > 0, points <= 1, other == 0))
}

// C21: unsupported constructs are errors, supported ones build.
func C21_Unsupported() {
	dd := dict(doubleField("x"), models.DataField{Name: "f", DataType: models.DataType("float")}, models.DataField{Name: "s", DataType: models.DataType("string")}, models.DataField{Name: "b", DataType: models.DataType("boolean")},
		models.DataField{Name: "i", DataType: models.DataType("integer")}, models.DataField{Name: "y", DataType: models.DataType("string")}, models.DataField{Name: "t", DataType: models.DataType("date")})
	td := &models.TransformationDictionary{}
	new := func(mdl models.ModelElement, ok bool, what string) {
		m, err := evaluation.NewModel(dd, td, mdl)
		if ok {
			sym.Reach("builds")
			sym.Assert(err == nil, what+": a supported model does not build")
			sym.Assert(m != nil, what+": no model and no error")
			return
		}
		sym.Reach("rejected")
		sym.Assert(err != nil, what+": an unsupported model builds")
	}
	leaf := func(p models.Predicate) *models.TreeModel {
		return &models.TreeModel{FunctionName: models.MiningFunction("classification"), MiningSchema: targetSchema, Node: models.Node{Score: "A", Predicate: &models.True{}, Nodes: []models.Node{{ID: "k", Score: "B", Predicate: p}}}}
	}
	reg := func() models.ModelElement { return regression("y", linear("", 1, "x", 1.0)) }
	big := sym.Bound(16, 20)
	switch sym.Choose("construct", 9) {
	case 0: // model kinds
		kinds := []string{"AssociationModel", "BaselineModel", "BayesianNetworkModel", "ClusteringModel", "GaussianProcessModel", "GeneralRegressionModel", "NaiveBayesModel", "NearestNeighborModel", "NeuralNetwork",
			"RuleSetModel", "Scorecard", "SequenceModel", "SupportVectorMachineModel", "TextModel", "TimeSeriesModel"}
		k := sym.Choose("kind", len(kinds)+2)
		var mdl models.ModelElement
		what := "no model"
		if k < len(kinds) {
			what = kinds[k]
			mdl, _ = models.GetModelElement(what)
		}
		if k == len(kinds)+1 {
			what = "regression"
			mdl = reg()
		}
		if sym.Choose("segment", 2) == 1 {
			mdl = ensemble(models.MiningFunction("regression"), models.MultipleModelMethod("sum"), always(mdl))
			what += " in a segment"
		}
		new(mdl, k == len(kinds)+1, what)
	case 1: // tree functions
		f := word("function", big, "classification", "regression", "clustering", "mixed", "timeSeries", "associationRules", "sequences", "")
		t := leaf(&models.SimplePredicate{Field: "x", Operator: models.SimplePredicateOperator("lessThan"), Value: "1"})
		t.FunctionName = models.MiningFunction(f)
		var mdl models.ModelElement = t
		if sym.Choose("segment", 2) == 1 {
			mdl = ensemble(models.MiningFunction("regression"), models.MultipleModelMethod("selectFirst"), always(t))
		}
		new(mdl, oneOf(f, "classification", "regression"), "tree function")
	case 2: // ensemble methods
		f := word("method", big, "sum", "average", "modelChain", "selectFirst", "selectAll", "majorityVote", "weightedMajorityVote", "weightedAverage", "weightedSum", "median", "weightedMedian", "max", "")
		e := ensemble([]models.MiningFunction{models.MiningFunction("regression"), models.MiningFunction("classification")}[sym.Choose("function", 2)], models.MultipleModelMethod(f), always(reg()))
		new(e, oneOf(f, "sum", "average", "modelChain", "selectFirst", ""), "ensemble method")
	case 3: // segments
		var mdls []models.ModelElement
		n := sym.Choose("models", 4)
		for i := 0; i < n; i++ {
			mdls = append(mdls, reg())
		}
		e := ensemble(models.MiningFunction("regression"), []models.MultipleModelMethod{models.MultipleModelMethod("sum"), models.MultipleModelMethod("modelChain"), models.MultipleModelMethod("selectFirst")}[sym.Choose("method", 3)])
		bad := models.Segment{Predicates: []models.Predicate{&models.True{}}, Models: mdls}
		at := sym.Choose("at", 3)
		for i := 0; i < 3; i++ {
			if i == at {
				e.Segmentation.Segments = append(e.Segmentation.Segments, bad)
			} else {
				e.Segmentation.Segments = append(e.Segmentation.Segments, always(reg()))
			}
		}
		new(e, n == 1, "segment of "+digit[n]+" models")
	case 4: // output features
		f := word("feature", big, "probability", "predictedValue", "predictedDisplayValue", "transformedValue", "decision", "residual", "standardError", "clusterId", "entityId", "confidence", "")
		e := ensemble(models.MiningFunction("classification"), models.MultipleModelMethod("sum"), always(reg()))
		e.Output = outputs("a", "b")
		e.Output.Fields[sym.Choose("field", 2)].Feature = models.ResultFeature(f)
		new(e, oneOf(f, "probability", ""), "output feature")
	case 5: // fields of predicates
		f := word("field", 3, "x", "f", "s", "b", "i", "y", "Probability", "d", "e")
		values := []string{"1", "true"}
		v := values[sym.Choose("value", 2)]
		var p models.Predicate
		known := oneOf(f, "x", "f", "s", "b", "i", "y", "d")
		ok := known
		pt := sym.Choose("predicate", 3)
		switch pt {
		case 0:
			p = &models.SimplePredicate{Field: models.FieldName(f), Operator: models.SimplePredicateOperator("equal"), Value: v}
			ok = sym.And(known, sym.Or(v == "1", oneOf(f, "s", "b", "y")))
		case 1:
			op := models.SimplePredicateOperator("isMissing")
			if sym.Choose("not", 2) == 1 {
				op = models.SimplePredicateOperator("isNotMissing")
			}
			p = &models.SimplePredicate{Field: models.FieldName(f), Operator: op}
			ok = sym.Or(known, f == "t")
		case 2:
			p = &models.SimpleSetPredicate{Field: models.FieldName(f), BooleanOperator: models.SimpleSetPredicateOperator("isIn"), Array: models.Array{Type: models.ArrayTypeType("string"), RawValue: "1 " + v}}
			ok = sym.And(known, sym.Or(v == "1", oneOf(f, "s", "b", "y")))
		}
		new(placed(p, leaf), ok, "field of a predicate")
	case 7: // operators of compound and set predicates
		if sym.Choose("set", 2) == 1 {
			op := word("operator", big, "isIn", "isNotIn", "isMissing", "equal", "")
			p := &models.SimpleSetPredicate{Field: "s", BooleanOperator: models.SimpleSetPredicateOperator(op), Array: models.Array{Type: models.ArrayTypeType("string"), RawValue: []string{"", "a"}[sym.Choose("elements", 2)]}}
			new(placed(p, leaf), oneOf(op, "isIn", "isNotIn"), "operator of a set predicate")
			break
		}
		op := word("operator", big, "and", "or", "xor", "surrogate", "not", "AND", "")
		p := &models.CompoundPredicate{BooleanOperator: models.CompoundPredicateOperator(op)}
		for i := sym.Choose("children", 3); i > 0; i-- {
			p.Predicates = append(p.Predicates, &models.True{})
		}
		new(placed(p, leaf), oneOf(op, "and", "or", "xor", "surrogate"), "operator of a compound predicate")
	case 8: // missing predicates
		var p models.Predicate
		if sym.Choose("compound", 2) == 1 {
			kids := []models.Predicate{&models.False{}, &models.True{}, &models.False{}}
			kids[sym.Choose("at", 3)] = nil
			p = &models.CompoundPredicate{BooleanOperator: compoundOps[sym.Choose("operator", 4)], Predicates: kids}
		}
		new(placed(p, leaf), false, "missing predicate")
	case 6: // literals and operators of predicates
		fields := []string{"x", "f", "i", "b", "s"}
		f := sym.Choose("field", len(fields))
		v, ok := "", true
		switch f {
		case 0, 1:
			v = word("literal", sym.Bound(2, 3), "1.5", "-3e-5", "1e400", "abc", "1,5", " 1", "1 ", "NaN", "-Inf", "0x1p4", "")
			switch v {
			case "-3e-5", "-Inf", "0x1p4":
			case "1e400":
				ok = false
			default:
				ok = sym.And(len(v) <= 3, realText(v))
			}
		case 2:
			v = word("literal", sym.Bound(3, 4), "12345", "-9223372036854775808", "9223372036854775808", "1.5", "abc", "1e3", "")
			switch v {
			case "-9223372036854775808":
			case "9223372036854775808":
				ok = false
			default:
				_, ok = integer(v)
			}
		case 3:
			v = word("literal", 5, "true", "false", "1", "0", "yes", "")
			ok = oneOf(v, "1", "t", "T", "true", "TRUE", "True", "0", "f", "F", "false", "FALSE", "False")
		case 4:
			v = word("literal", 2)
		}
		var p models.Predicate
		if sym.Choose("set", 2) == 0 {
			op := word("operator", 3, "equal", "notEqual", "lessThan", "lessOrEqual", "greaterThan", "greaterOrEqual", "isMissing", "isNotMissing")
			p = &models.SimplePredicate{Field: models.FieldName(fields[f]), Operator: models.SimplePredicateOperator(op), Value: v}
			if oneOf(op, "isMissing", "isNotMissing") {
				ok = true
			}
			ok = sym.And(ok, len(op) > 3)
		} else {
			elems, closed := tokens(v)
			sym.Assume(closed)
			sym.Assume(len(elems) == 1)
			sym.Assume(elems[0] == v)
			p = &models.SimpleSetPredicate{Field: models.FieldName(fields[f]), BooleanOperator: models.SimpleSetPredicateOperator("isNotIn"), Array: models.Array{Type: models.ArrayTypeType("string"), RawValue: v}}
		}
		new(placed(p, leaf), ok, "literal of a predicate on "+fields[f])
	}
}

// placed is a model with the predicate somewhere in it.
func placed(p models.Predicate, leaf func(models.Predicate) *models.TreeModel) models.ModelElement {
	derived := models.LocalTransformations{DerivedFields: []models.DerivedField{{Name: "d", DataType: models.DataType("double"), Expression: &models.FieldRef{Field: "x"}}}}
	var mdl models.ModelElement
	switch sym.Choose("place", 4) {
	case 0:
		t := leaf(p)
		t.LocalTransformations = derived
		mdl = t
	case 1: // deeper
		t := leaf(&models.False{})
		t.Node.Nodes[0].Nodes = []models.Node{{Score: "C", Predicate: &models.True{}}, {Score: "C", Predicate: &models.CompoundPredicate{BooleanOperator: models.CompoundPredicateOperator("and"), Predicates: []models.Predicate{&models.True{},
			&models.CompoundPredicate{BooleanOperator: models.CompoundPredicateOperator("surrogate"), Predicates: []models.Predicate{p, &models.False{}}}}}}}
		t.LocalTransformations = derived
		mdl = t
	case 2: // the root
		t := leaf(&models.True{})
		t.Node.Predicate = p
		t.LocalTransformations = derived
		mdl = t
	case 3: // a segment
		e := ensemble(models.MiningFunction("regression"), []models.MultipleModelMethod{models.MultipleModelMethod("sum"), models.MultipleModelMethod("selectFirst")}[sym.Choose("method", 2)],
			always(regression("y", linear("", 1, "x", 1.0))), guarded(p, regression("y", linear("", 1, "x", 1.0))))
		e.LocalTransformations = derived
		mdl = e
	}
	return mdl
}
