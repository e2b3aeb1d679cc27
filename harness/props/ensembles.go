package props

import (
	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() {
	Registry["C11"] = C11_SumAverage
	Registry["C12"] = C12_Chains
	Registry["C13"] = C13_Imputation
}

// moderate is an arbitrary number of at most a million in magnitude.
func moderate(name string) float64 {
	x := sym.Float64(name)
	sym.Assume(sym.And(x >= -1e6, x <= 1e6))
	return x
}

// linear is a regression table.
func linear(category string, intercept float64, terms ...interface{}) models.RegressionTable {
	t := models.RegressionTable{TargetCategory: category, Intercept: intercept}
	for i := 0; i+1 < len(terms); i += 2 {
		t.NumericPredictor = append(t.NumericPredictor, models.NumericPredictor{Name: terms[i].(string), Coefficient: terms[i+1].(float64), Exponent: 1})
	}
	return t
}

// regression is a regression model of one output field.
func regression(out string, t models.RegressionTable) *models.RegressionModel {
	return &models.RegressionModel{FunctionName: models.MiningFunction("regression"), RegressionTables: []models.RegressionTable{t},
		Output: models.Output{Fields: []models.OutputField{{Name: models.FieldName(out), DataType: models.DataType("double"), Feature: models.ResultFeature("predictedValue")}}}}
}

func outputs(names ...string) (o models.Output) {
	for _, n := range names {
		o.Fields = append(o.Fields, models.OutputField{Name: models.FieldName(n), DataType: models.DataType("double"), Feature: models.ResultFeature("probability")})
	}
	return o
}

// always is a segment guarded by True.
func always(m models.ModelElement) models.Segment { return guarded(&models.True{}, m) }

func guarded(p models.Predicate, m models.ModelElement) models.Segment {
	return models.Segment{Predicates: []models.Predicate{p}, Models: []models.ModelElement{m}}
}

func ensemble(fn models.MiningFunction, method models.MultipleModelMethod, segs ...models.Segment) *models.MiningModel {
	return &models.MiningModel{FunctionName: fn, Segmentation: models.Segmentation{MultipleModelMethod: method, Segments: segs}}
}

// scored is a model whose score is s.
func scored(kind int, s float64) models.ModelElement {
	switch kind {
	case 0:
		return &models.TreeModel{FunctionName: models.MiningFunction("regression"), Node: models.Node{Score: sym.FormatF(s), Predicate: &models.True{}}}
	case 1:
		return regression("score", linear("", s))
	}
	// a tree that goes by the sign of the field x
	return &models.TreeModel{FunctionName: models.MiningFunction("regression"), Node: models.Node{Score: "0", Predicate: &models.True{}, Nodes: []models.Node{
		{Score: sym.FormatF(s), Predicate: &models.SimplePredicate{Field: "x", Operator: models.SimplePredicateOperator("greaterThan"), Value: "0"}},
		{Score: sym.FormatF(s), Predicate: &models.SimplePredicate{Field: "x", Operator: models.SimplePredicateOperator("lessOrEqual"), Value: "0"}},
	}}}
}

func doubleField(name string) models.DataField {
	return models.DataField{Name: models.FieldName(name), DataType: models.DataType("double"), OpType: models.OpType("continuous")}
}

// C11: sum and average.
func C11_SumAverage() {
	method := []models.MultipleModelMethod{"", models.MultipleModelMethod("sum"), models.MultipleModelMethod("average")}[sym.Choose("method", 3)]
	classification := sym.Choose("function", 2) == 1
	n := 1 + sym.Choose("segments", sym.Bound(3, 5))
	mdl := ensemble(models.MiningFunction("regression"), method)
	row := evaluation.DataRow{"x": evaluation.NewValue(sym.Float64("x"))}
	sym.Assume(sym.Finite(row["x"].Float64()))
	// what each field is expected to be before rescaling
	names := []string{"a", "b"}
	sums := []float64{0, 0}
	// a segment may not apply
	off, skip := n, false
	if n > 1 {
		if off = sym.Choose("guarded", n+1); off < n {
			skip = !rowTV(row, 0).t
		}
	}
	used := float64(n)
	if skip {
		used--
	}
	if classification {
		mdl.FunctionName = models.MiningFunction("classification")
		for i := 0; i < n; i++ {
			s := moderate("s" + digit[i])
			switch sym.Choose("segment", 3) {
			case 0: // both outputs, the second is the complement
				m := &models.RegressionModel{FunctionName: models.MiningFunction("classification"), RegressionTables: []models.RegressionTable{linear("A", s), linear("B", 0)}, Output: outputs("b", "a")}
				m.Output.Fields[0].Value, m.Output.Fields[1].Value = "B", "A"
				mdl.Segmentation.Segments = append(mdl.Segmentation.Segments, always(m))
				if i == off && skip {
					continue
				}
				sums[0] += s
				sums[1] += 1 - s
			case 1: // only one of them
				mdl.Segmentation.Segments = append(mdl.Segmentation.Segments, always(regression("b", linear("", s))))
				if i == off && skip {
					continue
				}
				sums[1] += s
			case 2: // a tree that reports neither, and a score that must not be used
				mdl.Segmentation.Segments = append(mdl.Segmentation.Segments, always(scored(0, s)))
			}
		}
	} else {
		for i := 0; i < n; i++ {
			s := moderate("s" + digit[i])
			mdl.Segmentation.Segments = append(mdl.Segmentation.Segments, always(scored(sym.Choose("segment", 3), s)))
			if i == off && skip {
				continue
			}
			sums[0] += s
		}
		sums[1] = sums[0]
	}
	if off < n {
		mdl.Segmentation.Segments[off].Predicates[0] = isTrue(0)
	}
	if method == models.MultipleModelMethod("average") {
		sums[0] /= used
		sums[1] /= used
	}
	// a is an output or a target or both, b is an output
	where := sym.Choose("fields", 3)
	if where != 1 {
		mdl.Output = outputs(names...)
		mdl.Output.Fields[0].Feature = ""
	} else {
		mdl.Output = outputs("b")
	}
	if where != 0 {
		t := models.Target{Field: "a"}
		if sym.Choose("factor", 2) == 1 {
			x := moderate("factor")
			t.RescaleFactor = &x
			sums[0] *= x
		}
		if sym.Choose("constant", 2) == 1 {
			x := moderate("constant")
			t.RescaleConstant = &x
			sums[0] += x
		}
		mdl.Targets = models.Targets{Targets: []models.Target{t}}
		if n == 1 && sym.Choose("second", 2) == 1 {
			x := moderate("second")
			sums[1] += x
			mdl.Targets.Targets = append(mdl.Targets.Targets, models.Target{Field: "b", RescaleConstant: &x})
		}
	}
	what := "method=" + string(method)
	if classification {
		what += " classification"
	}
	out, err := build(dict(append(boolFields(1), doubleField("x"))...), mdl).Evaluate(row)
	sym.Assert(err == nil, what+": evaluation failed")
	for i, name := range names {
		v, ok := out[name]
		sym.Assert(ok, what+": no "+name)
		sym.AssertClose(v.Float64(), sums[i], what+": wrong "+name)
	}
	sym.Assert(len(out) == 2, what+": outputs that are not declared")
	sym.Reach("scored")
}

// C12: chains, selectFirst and segment predicates.
func C12_Chains() {
	row := evaluation.DataRow{}
	x := moderate("x")
	row["x"] = evaluation.NewValue(x)
	n := 1 + sym.Choose("segments", sym.Bound(3, 4))
	fail := sym.Choose("fail", n+1) // a segment whose evaluation fails
	guard := make([]stv, n)
	fs := append(boolFields(n), doubleField("x"))
	method := []models.MultipleModelMethod{models.MultipleModelMethod("modelChain"), models.MultipleModelMethod("selectFirst"), models.MultipleModelMethod("sum"), models.MultipleModelMethod("average")}[sym.Choose("method", 4)]
	chain := method == models.MultipleModelMethod("modelChain")
	mdl := ensemble(models.MiningFunction("regression"), method)
	plain := sym.Choose("guards", 2) == 0
	onOutput := make([]bool, n) // guarded by the first segment's output
	coef := make([]float64, n)
	tree := sym.Choose("tree", n+1)                       // a segment that is a tree and may give no prediction
	bare := !plain && chain && sym.Choose("bare", 2) == 1 // the first segment has no predicate at all
	for i := 0; i < n; i++ {
		var p models.Predicate = &models.True{}
		guard[i] = stv{t: true}
		if !plain {
			if chain && i > 0 && tree > 0 && sym.Choose("guard", 2) == 1 { // trees declare no outputs
				onOutput[i] = true
				p = &models.SimplePredicate{Field: "o0", Operator: models.SimplePredicateOperator("greaterThan"), Value: "0.5"}
			} else if i > 0 || !bare {
				guard[i] = rowTV(row, i)
				p = isTrue(i)
			}
		}
		in := "x"
		if chain && i > 0 {
			in = "o" + digit[sym.Choose("reads", i)]
		}
		coef[i] = moderate("c" + digit[i])
		if i == fail {
			in = "nowhere"
		}
		out := "score"
		if chain {
			// outputs may be overwritten by later segments
			out = "o" + digit[i]
			if i > 0 && sym.Choose("overwrite", 2) == 1 {
				out = "o0"
			}
		}
		seg := guarded(p, regression(out, linear("", coef[i], in, 1.0)))
		if i == tree {
			seg = guarded(p, &models.TreeModel{FunctionName: "regression", Node: models.Node{Score: sym.FormatF(coef[i]),
				Predicate: &models.SimplePredicate{Field: "x", Operator: "greaterThan", Value: "0.5"}}})
		}
		if i == 0 && bare {
			seg.Predicates = nil
		}
		mdl.Segmentation.Segments = append(mdl.Segmentation.Segments, seg)
	}
	mdl.Targets = models.Targets{Targets: []models.Target{{Field: "score"}}}
	// the expected result
	vals := map[string]float64{"x": x}
	wantErr, wantAny := false, false
	name, want, sum, used := "", 0.0, 0.0, 0
	for i, s := range mdl.Segmentation.Segments {
		if onOutput[i] {
			o, ok := vals["o0"]
			if !ok || !(o > 0.5) {
				continue
			}
		} else if !guard[i].t {
			continue
		}
		m, ok := s.Models[0].(*models.RegressionModel)
		if !ok {
			used++
			if x > 0.5 {
				name, want = "score", coef[i]
				wantAny = true
				sum += want
				if chain {
					vals[name] = want
				}
			} else {
				// no prediction
				wantAny = !chain && method != models.MultipleModelMethod("selectFirst")
			}
			if method == models.MultipleModelMethod("selectFirst") {
				break
			}
			continue
		}
		in, ok := vals[m.RegressionTables[0].NumericPredictor[0].Name]
		if !ok {
			wantErr = true
			break
		}
		name, want = string(m.Output.Fields[0].Name), coef[i]+in
		wantAny = true
		sum += want
		used++
		if chain {
			vals[name] = want
		}
		if method == models.MultipleModelMethod("selectFirst") {
			break
		}
	}
	what := "method=" + string(method)
	out, err := build(dict(fs...), mdl).Evaluate(row)
	if wantErr {
		sym.Reach("error")
		sym.Assert(err != nil, what+": the error of an evaluated segment is lost")
		return
	}
	if !wantAny {
		// no segment applies: no prediction, or an error
		sym.Reach("none")
		if method == models.MultipleModelMethod("selectFirst") || chain {
			sym.Assert(len(out) == 0, what+": a prediction although no segment applies")
		}
		return
	}
	sym.Assert(err == nil, what+": evaluation failed")
	sym.Reach(string(method))
	switch method {
	case models.MultipleModelMethod("sum"):
		name, want = "score", sum
	case models.MultipleModelMethod("average"):
		name, want = "score", sum/float64(used)
	}
	v, ok := out[name]
	sym.Assert(ok, what+": the expected output is not there")
	sym.AssertClose(v.Float64(), want, what+": wrong result")
	sym.Assert(len(out) == 1, what+": outputs of other segments")
}

// C13: missing value replacement.
func C13_Imputation() {
	if sym.Choose("texts", 2) == 1 {
		imputedTexts()
		return
	}
	n := sym.Bound(3, 4)
	row := evaluation.DataRow{}
	want := 0.0
	missing := false
	mdl := ensemble(models.MiningFunction("regression"), models.MultipleModelMethod("modelChain"))
	var terms []interface{}
	for i := 0; i < n; i++ {
		name := "x" + digit[i]
		mf := models.MiningField{Name: models.FieldName(name)}
		repl := sym.Choose("replacement", 3)
		r := moderate("r" + digit[i])
		switch repl {
		case 1:
			s := sym.FormatF(r)
			mf.MissingValueReplacement = &s
		case 2: // any text
			s := []string{"", "0", "7.25"}[sym.Choose("text", 3)]
			mf.MissingValueReplacement = &s
			r = []float64{0, 0, 7.25}[map[string]int{"": 0, "0": 1, "7.25": 2}[s]]
		}
		mdl.MiningSchema.MiningFields = append(mdl.MiningSchema.MiningFields, mf)
		x := 0.0
		switch sym.Choose("present", 6) {
		case 0: // absent
			x = r
			if repl == 0 {
				missing = true
			}
		case 1: // nil
			row[name] = evaluation.NewValue(nil)
			x = r
			if repl == 0 {
				missing = true
			}
		case 2:
			x = moderate("x" + digit[i])
			row[name] = evaluation.NewValue(x)
		case 3:
			k := sym.Int64("x" + digit[i])
			sym.Assume(sym.And(k > -1000000, k < 1000000))
			x = float64(k)
			row[name] = evaluation.NewValue(k)
		case 4:
			row[name] = evaluation.NewValue("")
		case 5:
			row[name] = evaluation.NewValue(false)
		}
		terms = append(terms, name, 1.0)
		want += x
	}
	dd := dict(doubleField("x0"), doubleField("x1"), doubleField("x2"), doubleField("x3"))
	what := "missing value replacement"
	// the replaced value is seen by derived fields, segment predicates and segments
	seg := regression("o", linear("", 0, terms...))
	var out evaluation.DataRow
	var err error
	switch sym.Choose("through", 3) {
	case 0:
		mdl.Segmentation.Segments = []models.Segment{always(seg)}
	case 1:
		what += " (derived fields)"
		e := models.Expression(&models.Constant{DataType: models.DataType("double"), Value: "0"})
		for i := 0; i < n; i++ {
			e = &models.Apply{Function: "+", Expressions: []models.Expression{e, &models.FieldRef{Field: models.FieldName("x" + digit[i])}}}
		}
		mdl.LocalTransformations.DerivedFields = []models.DerivedField{{Name: "d", DataType: models.DataType("double"), OpType: models.OpType("continuous"), Expression: e}}
		mdl.Segmentation.Segments = []models.Segment{always(regression("o", linear("", 0, "d", 1.0)))}
	case 2:
		what += " (nested ensemble)"
		in := ensemble(models.MiningFunction("regression"), models.MultipleModelMethod("modelChain"), always(seg))
		mdl.Segmentation.Segments = []models.Segment{always(in)}
	}
	out, err = build(dd, mdl).Evaluate(row)
	if missing {
		sym.Reach("missing")
		sym.Assert(err != nil, what+": a field without replacement is not missing")
		return
	}
	sym.Assert(err == nil, what+": evaluation failed")
	sym.Reach("value")
	v, ok := out["o"]
	sym.Assert(ok, what+": no output")
	sym.AssertClose(v.Float64(), want, what+": wrong value")
}

// imputedTexts: replacements of categorical fields are texts, whatever they look like, and segment predicates see them.
func imputedTexts() {
	repl := []string{"", "0", "01", "1e1", " a", "true", "a b", "NaN"}[sym.Choose("replacement", 8)]
	lit := []string{repl, "1", "10", "a", "0"}[sym.Choose("literal", 5)]
	usage := []models.FieldUsageType{"", models.FieldUsageType("active"), models.FieldUsageType("target"), models.FieldUsageType("supplementary")}[sym.Choose("usage", 4)]
	p := &models.SimplePredicate{Field: "s", Operator: models.SimplePredicateOperator("equal"), Value: lit}
	row := evaluation.DataRow{}
	seen := repl
	switch sym.Choose("present", 4) {
	case 1:
		row["s"] = evaluation.NewValue(nil)
	case 2:
		seen = text("s", 2)
		row["s"] = evaluation.NewValue(seen)
	case 3:
		row["s"] = evaluation.NewValue("")
		seen = ""
	}
	one := regression("o", linear("", 1))
	mdl := ensemble(models.MiningFunction("regression"), models.MultipleModelMethod("selectFirst"), guarded(p, one), always(regression("o", linear("", 2))))
	switch sym.Choose("through", 3) {
	case 1: // the tree of a segment
		t := predTree(p)
		t.Node.Score = "2"
		t.MissingValueStrategy = ""
		mdl.Segmentation.Segments = []models.Segment{always(t)}
	case 2: // an inner ensemble, whose own schema has no replacement
		in := ensemble(models.MiningFunction("regression"), models.MultipleModelMethod("selectFirst"), mdl.Segmentation.Segments...)
		in.MiningSchema.MiningFields = []models.MiningField{{Name: "s"}}
		mdl.Segmentation.Segments = []models.Segment{always(in)}
	}
	mdl.MiningSchema.MiningFields = []models.MiningField{{Name: "s", UsageType: usage, MissingValueReplacement: &repl}}
	out, err := build(dict(models.DataField{Name: "s", DataType: models.DataType("string"), OpType: models.OpType("categorical")}), mdl).Evaluate(row)
	sym.Assert(err == nil, "missing value replacement by a text: evaluation failed")
	sym.Reach("text")
	got := 0.0
	for _, v := range out {
		got = v.Float64()
	}
	want := 2.0
	if seen == lit {
		want = 1
	}
	sym.Assert(len(out) == 1 && got == want, "missing value replacement by a text: wrong value")
}
