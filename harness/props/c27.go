package props

import (
	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() {
	Registry["C27"] = C27_Rebuild
	Registry["C28"] = C28_Lifecycle
}

// nestedDerived is an ensemble whose derived field is used by the trees of its segments, one of which has
// derived fields of its own.
func nestedDerived(method models.MultipleModelMethod) (*models.DataDictionary, models.ModelElement) {
	derived := func(name, from string) models.DerivedField {
		return models.DerivedField{Name: name, DataType: models.DataType("double"), OpType: models.OpType("continuous"), Expression: &models.Apply{Function: "*", Expressions: []models.Expression{
			&models.FieldRef{Field: models.FieldName(from)}, &models.Constant{DataType: models.DataType("double"), Value: "2"}}}}
	}
	tree := func(field string) *models.TreeModel {
		return predTree(&models.SimplePredicate{Field: models.FieldName(field), Operator: models.SimplePredicateOperator("greaterThan"), Value: "4"})
	}
	t1, t2 := tree("d"), tree("e")
	t2.LocalTransformations = models.LocalTransformations{DerivedFields: []models.DerivedField{derived("e", "d")}}
	e := ensemble(models.MiningFunction("regression"), method, always(t1), guarded(&models.SimplePredicate{Field: "d", Operator: models.SimplePredicateOperator("greaterThan"), Value: "-3"}, t2), always(t1))
	e.Output = outputs("y")
	e.LocalTransformations = models.LocalTransformations{DerivedFields: []models.DerivedField{derived("d", "x")}}
	return dict(doubleField("x")), e
}

func anyDocument() (*models.DataDictionary, models.ModelElement, string) {
	switch sym.Choose("document", 3) {
	case 0:
		dd, mdl := mappedModel()
		return dd, mdl, "derived fields"
	case 1:
		methods := []models.MultipleModelMethod{"", models.MultipleModelMethod("sum"), models.MultipleModelMethod("average"), models.MultipleModelMethod("modelChain"), models.MultipleModelMethod("selectFirst")}
		m := methods[sym.Choose("method", len(methods))]
		dd, mdl := nestedDerived(m)
		return dd, mdl, "derived fields of an ensemble, method " + string(m)
	}
	return anyModel(false)
}

// C27: building and preparing models is repeatable.
func C27_Rebuild() {
	dd, mdl, what := anyDocument()
	td := &models.TransformationDictionary{DerivedFields: make([]models.DerivedField, 1, 4)}
	td.DerivedFields[0] = models.DerivedField{Name: "global", DataType: models.DataType("integer")}
	if sym.Choose("verification", 2) == 1 {
		withVerification(mdl, "y")
	}
	fields := append([]models.DataField(nil), dd.DataFields...)
	dictionaries := func() {
		sym.Assert(len(td.DerivedFields) == 1, what+": building changes the transformation dictionary")
		sym.Assert(td.DerivedFields[0].Name == "global", what+": building changes the transformation dictionary")
		sym.Assert(td.DerivedFields[0].DataType == models.DataType("integer"), what+": building changes the transformation dictionary")
		sym.Assert(len(td.DefineFunctions) == 0, what+": building changes the transformation dictionary")
		sym.Assert(len(dd.DataFields) == len(fields), what+": building changes the data dictionary")
		for i := range fields {
			sym.Assert(sym.And(dd.DataFields[i].Name == fields[i].Name, dd.DataFields[i].DataType == fields[i].DataType, len(dd.DataFields[i].Values) == len(fields[i].Values)), what+": building changes the data dictionary")
		}
	}

	m, err := evaluation.NewModel(dd, td, mdl)
	sym.Assert(err == nil, what+": does not build")
	dictionaries()
	row := anyRow("", 1)
	row["s"] = evaluation.NewValue("u")
	out, err := m.Evaluate(cloneRow(row))
	if err != nil {
		sym.Reach("error")
	} else if len(out) > 0 {
		sym.Reach("prediction")
	}

	_, isRegression := m.(*evaluation.RegressionModel)
	verified := m.Verify() == nil
	ms := []evaluation.Model{m}
	for i := 0; i < sym.Bound(2, 3); i++ {
		k := sym.Choose("call"+digit[i], 5)
		last := ms[len(ms)-1]
		switch k {
		case 0:
			sym.Assert(last.Compile() == nil, what+": does not compile again")
		case 1:
			e := last.Validate()
			sym.Assert(isRegression || e == nil, what+": does not validate again")
		case 2:
			sym.Assert((last.Verify() == nil) == verified, what+": verifies differently again")
		case 3:
			m2, err := evaluation.NewModel(dd, td, mdl)
			sym.Assert(err == nil, what+": does not build again")
			ms = append(ms, m2)
		case 4: // another document on the same dictionaries
			other := predTree(&models.SimplePredicate{Field: "x", Operator: models.SimplePredicateOperator("greaterThan"), Value: "4"})
			other.LocalTransformations = models.LocalTransformations{DerivedFields: []models.DerivedField{{Name: "d2", DataType: models.DataType("string")}, {Name: "foreign", DataType: models.DataType("string"), Expression: &models.FieldRef{Field: "x"}}}}
			_, err := evaluation.NewModel(dd, td, other)
			sym.Assert(err == nil, "another document does not build")
		}
		dictionaries()
	}
	for i, m2 := range ms {
		o2, e2 := m2.Evaluate(cloneRow(row))
		sameOut(out, err, o2, e2, what+": evaluator "+digit[i]+" after rebuilding")
	}
}

// C28: evaluators that are not fully prepared return an error.
func C28_Lifecycle() {
	dd := dict(append(boolFields(1), doubleField("x"), yField("A", "B"))...)
	td := &models.TransformationDictionary{}
	// what the constructors accept or reject
	validates, compiles := true, true
	pred := models.Predicate(&models.SimplePredicate{Field: "x", Operator: models.SimplePredicateOperator("greaterThan"), Value: "4"})
	switch sym.Choose("document", 3) {
	case 1:
		validates = false
	case 2:
		compiles = false
		pred = &models.SimplePredicate{Field: "nobody", Operator: models.SimplePredicateOperator("greaterThan"), Value: "4"}
	}
	tree := predTree(pred)
	var m evaluation.Model
	what := "tree"
	filled := 0
	zero := sym.Choose("zero", 2) == 1
	if sym.Choose("kind", 2) == 0 {
		if !validates {
			tree.FunctionName = []models.MiningFunction{"", models.MiningFunction("clustering")}[sym.Choose("function", 2)]
		}
		e := &evaluation.TreeModel{}
		if !zero {
			filled = sym.Fill(e, dd, td, tree)
		}
		m = e
	} else {
		methods := []models.MultipleModelMethod{"", models.MultipleModelMethod("sum"), models.MultipleModelMethod("average"), models.MultipleModelMethod("modelChain"), models.MultipleModelMethod("selectFirst")}
		method := methods[sym.Choose("method", len(methods))]
		what = "ensemble " + string(method)
		if !validates {
			method = models.MultipleModelMethod("max")
		}
		mm := ensemble(models.MiningFunction("regression"), method, always(tree))
		mm.Output = outputs("y")
		e := &evaluation.MiningModel{}
		if !zero {
			filled = sym.Fill(e, dd, td, mm)
		}
		m = e
	}
	if zero {
		sym.Reach("zero")
		out, err := m.Evaluate(anyRow("", 1))
		sym.Assert(err == evaluation.ErrNotValidated, what+": an unprepared evaluator does not say so")
		sym.Assert(out == nil, what+": an unprepared evaluator has an output")
		return
	}
	sym.Assume(filled == 3)
	validated, compiled := false, false
	row := evaluation.DataRow{}
	if sym.Choose("row", 2) == 1 {
		row["x"] = evaluation.NewValue(sym.Float64("x"))
	}
	for i := 0; i < sym.Bound(4, 6); i++ {
		switch sym.Choose("call"+digit[i], 3) {
		case 0:
			err := m.Validate()
			sym.Assert((err == nil) == validates, what+": Validate accepts or rejects the wrong models")
			validated = validates
		case 1:
			err := m.Compile()
			sym.Assert((err == nil) == compiles, what+": Compile accepts or rejects the wrong models")
			compiled = compiles
		}
		out, err := m.Evaluate(row)
		switch {
		case !validated:
			sym.Assert(err == evaluation.ErrNotValidated, what+": an evaluator that is not validated does not say so")
			sym.Assert(out == nil, what+": an evaluator that is not validated has an output")
			sym.Reach("not validated")
		case !compiled:
			sym.Assert(err == evaluation.ErrNotCompiled, what+": an evaluator that is not compiled does not say so")
			sym.Assert(out == nil, what+": an evaluator that is not compiled has an output")
			sym.Reach("not compiled")
		default:
			sym.Assert(sym.And(err != evaluation.ErrNotValidated, err != evaluation.ErrNotCompiled), what+": a prepared evaluator refuses")
			sym.Reach("prepared")
		}
	}
}
