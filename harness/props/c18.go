package props

import (
	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() {
	Registry["C18"] = C18_ReadOnly
	Registry["C19"] = C19_CallersRow
}

// withVerification attaches a one-row verification table.
func withVerification(mdl models.ModelElement, field string) {
	prec := 1e-6
	mv := &models.ModelVerification{
		VerificationFields: models.VerificationFields{Fields: []models.VerificationField{{Field: "x", Column: "data:x"}, {Field: models.FieldName(field), Column: "data:out", Precision: &prec}}},
		InlineTable:        models.InlineTable{Rows: []models.Row{{"x": "1", "out": "0.5"}}}}
	switch m := mdl.(type) {
	case *models.TreeModel:
		m.ModelVerification = mv
	case *models.MiningModel:
		m.ModelVerification = mv
	case *models.RegressionModel:
		m.ModelVerification = mv
	}
}

// C18: nothing reachable from the model is written by Evaluate and Verify.
func C18_ReadOnly() {
	var dd *models.DataDictionary
	var mdl models.ModelElement
	what := ""
	mapped := sym.Choose("mapped", 2) == 1
	if mapped {
		dd, mdl = mappedModel()
		what = "derived fields"
	} else {
		dd, mdl, what = anyModel(false)
	}
	withVerification(mdl, "y")
	td := &models.TransformationDictionary{}
	m, err := evaluation.NewModel(dd, td, mdl)
	sym.Assert(err == nil, what+": does not build")
	r1, r2 := anyRow("a", 1), evaluation.DataRow{"x": evaluation.NewValue(2.0), "p0": evaluation.NewValue(true)}
	if mapped {
		r1["s"] = evaluation.NewValue("u")
	}
	sym.Freeze(m, dd, td, mdl)
	sym.Reach("evaluated")
	verify := sym.Choose("verify", 2) == 1
	sym.Concurrently(
		func() { m.Evaluate(r1) },
		func() {
			if verify {
				m.Verify()
			} else {
				m.Evaluate(r2)
			}
		},
	)
}

// mappedModel is a model with every kind of derived field.
func mappedModel() (*models.DataDictionary, models.ModelElement) {
	def := "none"
	ref := func(s string) models.Expression { return &models.FieldRef{Field: models.FieldName(s)} }
	num := func(s string) models.Expression { return &models.Constant{DataType: models.DataType("double"), Value: s} }
	app := func(f string, e ...models.Expression) models.Expression {
		return &models.Apply{Function: f, Expressions: e}
	}
	lt := models.LocalTransformations{DerivedFields: []models.DerivedField{
		{Name: "d0", DataType: models.DataType("string"), OpType: models.OpType("categorical"), Expression: &models.MapValues{OutputColumn: "data:output", DataType: models.DataType("string"), DefaultValue: &def,
			FieldColumnPairs: []models.FieldColumnPair{{Field: "s", Column: "data:input"}}, InlineTables: []models.InlineTable{{Rows: []models.Row{{"input": "u", "output": "5"}, {"input": "v", "output": "6"}}}}}},
		{Name: "d1", DataType: models.DataType("double"), OpType: models.OpType("continuous"), Expression: app("if", app("isMissing", ref("x")), num("0"), app("*", ref("x"), num("2")))},
		{Name: "d2", DataType: models.DataType("double"), OpType: models.OpType("continuous"), Expression: app("sum", ref("d1"), ref("x"), app("/", ref("d1"), num("4")))},
	}}
	if sym.Choose("kind", 2) == 0 {
		r := regression("y", linear("", 0.25, "d1", 1.0, "d2", 2.0))
		r.LocalTransformations = lt
		return dict(doubleField("x"), models.DataField{Name: "s", DataType: models.DataType("string")}), r
	}
	t := predTree(&models.CompoundPredicate{BooleanOperator: models.CompoundPredicateOperator("and"), Predicates: []models.Predicate{
		&models.SimplePredicate{Field: "d0", Operator: models.SimplePredicateOperator("equal"), Value: "5"},
		&models.SimplePredicate{Field: "d2", Operator: models.SimplePredicateOperator("greaterThan"), Value: "1"}}})
	t.LocalTransformations = lt
	return dict(doubleField("x"), models.DataField{Name: "s", DataType: models.DataType("string")}), t
}

// C19: the caller's row.
func C19_CallersRow() {
	var dd *models.DataDictionary
	var mdl models.ModelElement
	what := ""
	mapped := sym.Choose("mapped", 2) == 1
	if mapped {
		dd, mdl = mappedModel()
		what = "derived fields"
	} else {
		dd, mdl, what = anyModel(false)
	}
	if k := sym.Choose("nested", 4); k > 0 {
		method := []models.MultipleModelMethod{models.MultipleModelMethod("modelChain"), models.MultipleModelMethod("modelChain"), models.MultipleModelMethod("selectFirst")}[k-1]
		what += " in an ensemble, method " + string(method)
		repl := "3"
		e := ensemble(models.MiningFunction("regression"), method, always(mdl), always(regression("out", linear("", 1, "x", 1.0))))
		if k == 1 {
			e.MiningSchema.MiningFields = []models.MiningField{{Name: "y1", MissingValueReplacement: &repl}, {Name: "p1", MissingValueReplacement: &repl}}
		}
		mdl = e
	}
	m := build(dd, mdl)
	row := anyRow("", sym.Choose("extra", 4))
	if mapped && sym.Choose("s", 2) == 1 {
		row["s"] = evaluation.NewValue("u")
	}
	before := cloneRow(row)
	out, err := m.Evaluate(row)
	if err != nil {
		sym.Reach("error")
	} else if len(out) == 0 {
		sym.Reach("none")
	} else {
		sym.Reach("prediction")
	}
	sameOut(before, nil, row, nil, "the caller's row, "+what)
	// the result is the caller's own
	for k := range out {
		out[k] = evaluation.NewValue("overwritten")
	}
	out2, err2 := m.Evaluate(row)
	sym.Assert((err == nil) == (err2 == nil), what+": evaluating again fails")
	sym.Assert(len(out) == len(out2), what+": evaluating again gives other outputs")
	for _, v := range out2 {
		s, ok := v.Raw().(string)
		sym.Assert(!ok || s != "overwritten", what+": the result shares memory with the model")
	}
	sameOut(before, nil, row, nil, "the caller's row after a second evaluation, "+what)
}
