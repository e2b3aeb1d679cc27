package props

import (
	"math"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() {
	Registry["C14"] = C14_Regression
	Registry["C15"] = C15_Classification
}

var norms = []models.RegressionNormalizationMethod{"", models.RegressionNormalizationMethod("none"), models.RegressionNormalizationMethod("softmax"), models.RegressionNormalizationMethod("logit"),
	models.RegressionNormalizationMethod("exp"), models.RegressionNormalizationMethod("cloglog"), models.RegressionNormalizationMethod("cauchit")}
var badNorms = []models.RegressionNormalizationMethod{models.RegressionNormalizationMethod("simplemax"), models.RegressionNormalizationMethod("probit"), models.RegressionNormalizationMethod("loglog"), "LOGIT", "logit "}

func normalize(m models.RegressionNormalizationMethod, y float64) float64 {
	switch m {
	case models.RegressionNormalizationMethod("softmax"), models.RegressionNormalizationMethod("logit"):
		return 1 / (1 + math.Exp(-y))
	case models.RegressionNormalizationMethod("exp"):
		return math.Exp(y)
	case models.RegressionNormalizationMethod("cloglog"):
		return 1 - math.Exp(-math.Exp(y))
	case models.RegressionNormalizationMethod("cauchit"):
		return 0.5 + (1/math.Pi)*math.Atan(y)
	}
	return y
}

// table is a regression table of up to max predictors over the fields x0.. and its linear predictor for the row.
func table(name, category string, max int, exps []int64, row evaluation.DataRow) (models.RegressionTable, float64) {
	t := models.RegressionTable{TargetCategory: category, Intercept: moderate("intercept" + name)}
	y := t.Intercept
	n := sym.Choose("predictors"+name, max+1)
	for i := 0; i < n; i++ {
		f := "x" + digit[i]
		v := row[f].Raw()
		var x float64
		switch z := v.(type) {
		case float64:
			x = z
		case int64:
			x = float64(z)
		}
		np := models.NumericPredictor{Name: f, Coefficient: moderate("c" + name + digit[i]), Exponent: exps[sym.Choose("exponent"+name+digit[i], len(exps))]}
		t.NumericPredictor = append(t.NumericPredictor, np)
		if np.Exponent > 1 || np.Exponent < 0 {
			x = math.Pow(x, float64(np.Exponent))
		}
		y += np.Coefficient * x
	}
	return t, y
}

// C14: regression function.
func C14_Regression() {
	if sym.Choose("large", 2) == 1 {
		largeRegression()
		return
	}
	row := evaluation.DataRow{}
	max := sym.Bound(3, 4)
	x0 := moderate("x0")
	row["x0"] = evaluation.NewValue(x0)
	k := sym.Int64("x1")
	sym.Assume(sym.And(k > -1000000, k < 1000000))
	row["x1"] = evaluation.NewValue(k)
	for i := 2; i < max; i++ {
		row["x"+digit[i]] = evaluation.NewValue(moderate("x" + digit[i]))
	}
	m := &models.RegressionModel{FunctionName: models.MiningFunction("regression")}
	nt := []int{1, 0, 2}[sym.Choose("tables", 3)]
	no := []int{1, 0, 2}[sym.Choose("outputs", 3)]
	exps := []int64{0, 1, 2, -1, 3}
	if nt != 1 || no != 1 {
		max, exps = 1, exps[:1]
	}
	bad := sym.Choose("unsupported", 2) == 1
	if bad {
		m.RegressionNormalizationMethod = badNorms[sym.Choose("method", len(badNorms))]
		max, exps = 1, exps[:1]
	} else {
		m.RegressionNormalizationMethod = norms[sym.Choose("method", len(norms))]
	}
	y := 0.0
	for i := 0; i < nt; i++ {
		var t models.RegressionTable
		t, y = table(digit[i], "", max, exps, row)
		m.RegressionTables = append(m.RegressionTables, t)
	}
	for i := 0; i < no; i++ {
		m.Output.Fields = append(m.Output.Fields, models.OutputField{Name: models.FieldName("out" + digit[i]), Feature: models.ResultFeature("predictedValue")})
	}
	what := "regression normalization=" + string(m.RegressionNormalizationMethod)
	gone := false
	if nt == 1 && len(m.RegressionTables[0].NumericPredictor) > 0 {
		i := sym.Choose("missing", 2*len(m.RegressionTables[0].NumericPredictor)+1) - 1
		if i >= 0 {
			gone = true
			if i%2 == 0 {
				delete(row, "x"+digit[i/2])
			} else {
				row["x"+digit[i/2]] = evaluation.NewValue(nil)
			}
		}
	}
	mdl, err := evaluation.NewModel(dict(), &models.TransformationDictionary{}, m)
	if err != nil {
		sym.Assert(bad || nt != 1 || no != 1, what+": a supported model does not build")
		return
	}
	out, err := mdl.Evaluate(row)
	if bad || gone || nt != 1 || no != 1 {
		sym.Reach("error")
		sym.Assert(err != nil, what+": a result where an error is expected")
		return
	}
	sym.Assert(err == nil, what+": evaluation failed")
	v, ok := out["out0"]
	sym.Assert(ok, what+": no result")
	sym.Assert(len(out) == 1, what+": other results")
	sym.Reach("value")
	sym.AssertClose(v.Float64(), normalize(m.RegressionNormalizationMethod, y), what+": wrong result")
}

// C15: classification.
func C15_Classification() {
	if sym.Choose("large", 2) == 1 {
		largeSoftmax()
		return
	}
	row := evaluation.DataRow{}
	row["x0"] = evaluation.NewValue(moderate("x0"))
	row["x1"] = evaluation.NewValue(moderate("x1"))
	m := &models.RegressionModel{FunctionName: models.MiningFunction("classification")}
	cats := []string{"A", "B", "C", "D"}
	binary := sym.Choose("binary", 2) == 1
	nt := 2
	if !binary {
		nt = 1 + sym.Choose("tables", sym.Bound(3, 4))
	}
	preds := 2
	exps := []int64{1, 2}
	if !binary {
		preds = 1
		exps = exps[:1]
	}
	// the tables come in any order
	first := sym.Choose("first", nt)
	ys := make([]float64, nt)
	byCat := map[string]float64{}
	var order []string
	for i := 0; i < nt; i++ {
		c := cats[(first+i)%nt]
		var t models.RegressionTable
		if i == 1 && binary && sym.Choose("second", 2) == 0 {
			t = models.RegressionTable{TargetCategory: c} // the usual reference category
		} else {
			t, ys[i] = table(digit[i], c, preds, exps, row)
		}
		m.RegressionTables = append(m.RegressionTables, t)
		order = append(order, c)
	}
	gone := false
	for i := 0; i < 2; i++ {
		for j, t := range m.RegressionTables {
			if binary && j == 1 {
				continue
			}
			if len(t.NumericPredictor) > i && !gone && sym.Choose("missing", 2) == 1 {
				gone = true
				delete(row, "x"+digit[i])
			}
		}
	}
	bad := false
	if binary {
		m.RegressionNormalizationMethod = norms[sym.Choose("method", len(norms))]
		p := normalize(m.RegressionNormalizationMethod, ys[0])
		if m.RegressionNormalizationMethod == models.RegressionNormalizationMethod("softmax") {
			p = 1 / (1 + math.Exp(-(ys[0] - ys[1])))
		}
		byCat[order[0]] = p
		byCat[order[1]] = 1 - p
	} else {
		k := sym.Choose("method", 4)
		m.RegressionNormalizationMethod = []models.RegressionNormalizationMethod{models.RegressionNormalizationMethod("simplemax"), models.RegressionNormalizationMethod("softmax"), models.RegressionNormalizationMethod("logit"), "bogus"}[k]
		bad = k > 1
		s := 0.0
		for i := range ys {
			s += ys[i]
		}
		for i := range ys {
			if k == 1 {
				// exp(yi) / sum exp(yj)
				d := 0.0
				for j := range ys {
					if j == i {
						d++
					} else {
						d += math.Exp(ys[j] - ys[i])
					}
				}
				byCat[order[i]] = 1 / d
			} else {
				byCat[order[i]] = ys[i] / s
			}
		}
		if k == 0 {
			sym.Assume(sym.Or(s > 1e-3, s < -1e-3))
		}
	}
	// the output fields come in any order, with any names, and may be fewer or more than the categories
	no := 2
	if !binary {
		no = []int{nt, nt + 1, 1, 0}[sym.Choose("outputs", 4)]
		if no == 2 {
			return // that would be the binary case
		}
	}
	shift := sym.Choose("shift", no+1)
	want := map[string]float64{}
	for i := 0; i < no; i++ {
		c := cats[(i+shift)%4]
		if binary {
			c = cats[(i+shift)%2]
		}
		name := "p" + digit[i]
		m.Output.Fields = append(m.Output.Fields, models.OutputField{Name: models.FieldName(name), Value: c, Feature: models.ResultFeature("probability")})
		if p, ok := byCat[c]; ok {
			want[name] = p
		}
	}
	what := "classification normalization=" + string(m.RegressionNormalizationMethod)
	if binary {
		what = "binary " + what
	}
	mdl, err := evaluation.NewModel(dict(), &models.TransformationDictionary{}, m)
	if err != nil {
		sym.Assert(bad, what+": a supported model does not build")
		return
	}
	out, err := mdl.Evaluate(row)
	if gone || bad {
		sym.Reach("error")
		sym.Assert(err != nil, what+": a result where an error is expected")
		return
	}
	sym.Assert(err == nil, what+": evaluation failed")
	for name, p := range want {
		v, ok := out[name]
		sym.Assert(ok, what+": a probability is not reported under its output field")
		sym.AssertClose(v.Float64(), p, what+": wrong probability")
	}
	sym.Assert(len(out) == len(want), what+": other outputs")
	sym.Reach("value")
}

// scores where the exponentials run out of range, and their neighbourhood: the laws of the reals do not decide these.
var scores = []float64{0, 1000, -1000, -0.75, 1e6, 36.5, -36.5, 709, 710, -1e9, 1e300}

// C14: results for large scores are those of the formula.
func largeRegression() {
	norm := norms[sym.Choose("method", len(norms))]
	y := scores[sym.Choose("score", len(scores))]
	m := &models.RegressionModel{FunctionName: models.MiningFunction("regression"), RegressionNormalizationMethod: norm,
		RegressionTables: []models.RegressionTable{{NumericPredictor: []models.NumericPredictor{{Name: "x0", Coefficient: 1, Exponent: 1}}}}}
	m.Output.Fields = []models.OutputField{{Name: "out0", Feature: models.ResultFeature("predictedValue")}}
	what := "regression normalization=" + string(norm)
	mdl, err := evaluation.NewModel(dict(), &models.TransformationDictionary{}, m)
	sym.Assert(err == nil, what+": a supported model does not build")
	if err != nil {
		return
	}
	out, err := mdl.Evaluate(evaluation.DataRow{"x0": evaluation.NewValue(y)})
	sym.Assert(err == nil, what+": evaluation failed")
	v, ok := out["out0"]
	sym.Assert(ok, what+": no result")
	sym.AssertClose(v.Float64(), normalize(norm, y), what+": wrong result for a large score")
	sym.Reach("large")
}

// C15: softmax probabilities are the formula's whatever the size of the scores: they depend on their distances only.
func largeSoftmax() {
	cats := []string{"A", "B", "C"}
	binary := sym.Choose("binary", 2) == 1
	n := 3
	if binary {
		n = 2
	}
	m := &models.RegressionModel{FunctionName: models.MiningFunction("classification"), RegressionNormalizationMethod: models.RegressionNormalizationMethod("softmax")}
	row := evaluation.DataRow{}
	ys := make([]float64, n)
	top := math.Inf(-1)
	for i := 0; i < n; i++ {
		ys[i] = scores[sym.Choose("score"+digit[i], sym.Bound(5, 10))]
		if ys[i] > top {
			top = ys[i]
		}
		row["x"+digit[i]] = evaluation.NewValue(ys[i])
		m.RegressionTables = append(m.RegressionTables, models.RegressionTable{TargetCategory: cats[i], NumericPredictor: []models.NumericPredictor{{Name: "x" + digit[i], Coefficient: 1, Exponent: 1}}})
		m.Output.Fields = append(m.Output.Fields, models.OutputField{Name: models.FieldName("p" + cats[i]), Value: cats[i], Feature: models.ResultFeature("probability")})
	}
	s := 0.0
	for _, y := range ys {
		s += math.Exp(y - top)
	}
	mdl, err := evaluation.NewModel(dict(), &models.TransformationDictionary{}, m)
	sym.Assert(err == nil, "softmax: a supported model does not build")
	if err != nil {
		return
	}
	out, err := mdl.Evaluate(row)
	sym.Assert(err == nil, "softmax: evaluation failed")
	for i, y := range ys {
		v, ok := out["p"+cats[i]]
		sym.Assert(ok, "softmax: a probability is not reported under its output field")
		sym.AssertClose(v.Float64(), math.Exp(y-top)/s, "softmax: wrong probability for large scores")
	}
	sym.Reach("large")
}
