package props

import (
	"math"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() { Registry["C16"] = C16_Verification }

// C16: verification. The model computes a = x + c (its output) from the field x.
func C16_Verification() {
	kind := sym.Choose("model", 4)
	rows := 1 + sym.Choose("rows", 2)
	name := "a"
	columns := sym.Choose("columns", 2) // columns named like the fields, or not
	xcol, acol := "x", "a"
	if columns == 1 {
		xcol, acol = "col1", "col2"
	}
	absent := sym.Choose("absent", 3) // the expected output is not produced, or its evaluation fails
	prec := 1e-6
	mv := &models.ModelVerification{}
	inField := models.FieldName("x")
	if absent == 2 {
		inField = "z" // x is missing
	}
	in := models.VerificationField{Field: inField, Column: "data:" + xcol}
	want := models.VerificationField{Field: models.FieldName(name), Column: "data:" + acol, Precision: &prec}
	mv.VerificationFields.Fields = []models.VerificationField{in, want}
	if sym.Choose("order", 2) == 1 {
		mv.VerificationFields.Fields = []models.VerificationField{want, in}
	}
	accept, reject := true, false
	label := kind == 3
	lacks := 0 // one row says nothing about x: the model then has no output, or the tree's
	if rows == 2 && absent != 2 {
		lacks = sym.Choose("lacks", 3)
	}
	for i := 0; i < rows; i++ {
		row := models.Row{}
		if lacks == i+1 {
			if label {
				e := []string{"pos", "neg"}[sym.Choose("expected"+digit[i], 2)]
				row[acol] = e
				accept, reject = sym.And(accept, e == "neg"), sym.Or(reject, e == "pos")
			} else {
				row[acol] = "0"
				accept, reject = false, true
			}
			mv.InlineTable.Rows = append(mv.InlineTable.Rows, row)
			continue
		}
		if label {
			// a classification tree that says "pos" or "neg"
			x := sym.Float64("x" + digit[i])
			sym.Assume(sym.Finite(x))
			row[xcol] = sym.FormatF(x)
			e := []string{"pos", "neg", "none"}[sym.Choose("expected"+digit[i], 3)]
			row[acol] = e
			ok := sym.Or(sym.And(x > 0, e == "pos"), sym.And(!(x > 0), e == "neg"))
			accept = sym.And(accept, ok)
			reject = sym.Or(reject, !ok)
		} else {
			x, e := sym.Float64("x"+digit[i]), sym.Float64("expected"+digit[i])
			if sym.Choose("nan", 4) == 3 {
				// infinities and NaN
				big := []string{"NaN", "+Inf", "-Inf"}[sym.Choose("big", 3)]
				row[xcol] = big
				row[acol] = "1"
				accept, reject = false, true
			} else {
				sym.Assume(sym.And(x >= -1e9, x <= 1e9, e >= -1e9, e <= 1e9))
				row[xcol] = sym.FormatF(x)
				row[acol] = sym.FormatF(e)
				d := math.Abs(e - x)
				accept = sym.And(accept, d <= 0.99e-5*math.Abs(e))
				reject = sym.Or(reject, d > 1.01e-5*math.Abs(e))
			}
		}
		mv.InlineTable.Rows = append(mv.InlineTable.Rows, row)
	}
	if absent != 0 {
		if absent == 1 {
			for i := range mv.VerificationFields.Fields {
				if mv.VerificationFields.Fields[i].Precision != nil {
					mv.VerificationFields.Fields[i].Field = "other"
				}
			}
		}
		accept, reject = false, true
	}
	none := absent == 0 && rows == 1 && sym.Choose("none", 2) == 1
	if none {
		mv = nil
		accept, reject = true, false
	}
	var mdl models.ModelElement
	dd := dict(doubleField("x"))
	switch kind {
	case 0:
		r := regression(name, linear("", 0, "x", 1.0))
		r.ModelVerification = mv
		mdl = r
	case 1:
		e := ensemble(models.MiningFunction("regression"), models.MultipleModelMethod("modelChain"), always(regression(name, linear("", 0, "x", 1.0))))
		e.ModelVerification = mv
		mdl = e
	case 2:
		r := regression(name, linear("", 0, "x", 1.0))
		r.ModelVerification = mv
		// two outputs: only one of them is verified
		r.FunctionName = models.MiningFunction("classification")
		r.RegressionTables = append(r.RegressionTables, models.RegressionTable{TargetCategory: "other"})
		r.Output = outputs("rest", name)
		r.Output.Fields[0].Value = "other"
		mdl = r
	case 3:
		dd.DataFields = append(dd.DataFields, models.DataField{Name: "a", DataType: models.DataType("string")})
		if absent == 2 {
			return // the tree has a prediction for a missing x
		}
		mdl = &models.TreeModel{FunctionName: models.MiningFunction("classification"), ModelVerification: mv,
			MiningSchema: models.MiningSchema{MiningFields: []models.MiningField{{Name: "a", UsageType: models.FieldUsageType("target")}}},
			Node: models.Node{Score: "neg", Predicate: &models.True{}, Nodes: []models.Node{
				{Score: "pos", Predicate: &models.SimplePredicate{Field: "x", Operator: models.SimplePredicateOperator("greaterThan"), Value: "0"}}}}}
	}
	m := build(dd, mdl)
	err := m.Verify()
	what := "verification"
	if columns == 1 {
		what += " (columns not named like fields)"
	}
	if err == nil {
		sym.Reach("accepted")
		sym.Assert(!reject, what+": a model that does not reproduce its table is accepted")
	} else {
		sym.Reach("rejected")
		sym.Assert(!accept, what+": a model that reproduces its table is rejected")
	}
	_ = evaluation.DataRow{}
}
