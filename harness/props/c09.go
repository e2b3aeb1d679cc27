package props

import (
	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() { Registry["C09"] = C09_Expressions }

// eval is the expected result of an expression: an error, a missing value, a number or a truth value.
type eval struct {
	err, missing, isBool, b bool
	f                       float64
}

type c09gen struct {
	row  evaluation.DataRow
	n    int
	desc string
}

// leaf is an arbitrary field or constant.
func (g *c09gen) leaf(kinds int) (models.Expression, eval) {
	switch sym.Choose("leaf", kinds) {
	case 0:
		i := g.n
		g.n++
		x := sym.Float64("x" + digit[i])
		present := sym.Bool("present" + digit[i])
		name := "x" + digit[i]
		g.desc += " x"
		if present {
			g.row[name] = evaluation.NewValue(x)
		} else {
			if i%2 == 1 {
				g.row[name] = evaluation.NewValue(nil)
			}
			return &models.FieldRef{Field: models.FieldName(name)}, eval{missing: true}
		}
		return &models.FieldRef{Field: models.FieldName(name)}, eval{f: x}
	case 1:
		c := sym.Float64("c" + digit[g.n])
		g.n++
		sym.Assume(sym.Finite(c))
		g.desc += " const"
		return &models.Constant{DataType: models.DataType("double"), Value: sym.FormatF(c)}, eval{f: c}
	case 2:
		// a carrier that is not a float
		i := g.n
		g.n++
		ref := &models.FieldRef{Field: models.FieldName("x" + digit[i])}
		if sym.Choose("carrier", 2) == 1 {
			x := sym.Float64("x" + digit[i])
			sym.Assume(sym.Finite(x))
			g.row["x"+digit[i]] = evaluation.NewValue(sym.FormatF(x))
			g.desc += " text"
			return ref, eval{f: x}
		}
		n := sym.Int64("x" + digit[i])
		g.row["x"+digit[i]] = evaluation.NewValue(n)
		g.desc += " int"
		return ref, eval{f: float64(n)}
	}
	g.desc += " bad"
	return &models.Apply{Function: "noSuchFunction"}, eval{err: true}
}

var c09funcs = []string{"+", "-", "*", "/", "sum", "if", "isMissing", "isNotMissing"}

func (g *c09gen) cond() (models.Expression, eval) {
	i := g.n
	g.n++
	switch sym.Choose("cond", 3) {
	case 0:
		b := sym.Bool("b" + digit[i])
		g.row["b"+digit[i]] = evaluation.NewValue(b)
		g.desc += " b"
		return &models.FieldRef{Field: models.FieldName("b" + digit[i])}, eval{isBool: true, b: b}
	case 1:
		return g.apply("isMissing", 0)
	}
	return g.apply("isNotMissing", 0)
}

// oddCond is a truth value carried as text, or a test of a present value that looks like nothing.
func (g *c09gen) oddCond() (models.Expression, eval) {
	i := g.n
	g.n++
	if sym.Choose("oddity", 2) == 0 {
		b := sym.Choose("text", 2) == 1
		text := "false"
		if b {
			text = "true"
		}
		g.row["b"+digit[i]] = evaluation.NewValue(text)
		g.desc += " text"
		return &models.FieldRef{Field: models.FieldName("b" + digit[i])}, eval{isBool: true, b: b}
	}
	v := []interface{}{"", "abc", false, 0, 0.0, "0", int8(0), []string(nil)}[sym.Choose("present", 8)]
	fn := []string{"isMissing", "isNotMissing"}[sym.Choose("test", 2)]
	g.row["b"+digit[i]] = evaluation.NewValue(v)
	g.desc += " " + fn + "(present)"
	return &models.Apply{Function: fn, Expressions: []models.Expression{&models.FieldRef{Field: models.FieldName("b" + digit[i])}}},
		eval{isBool: true, b: fn == "isNotMissing"}
}

// expr chooses an expression of at most the given depth.
func (g *c09gen) expr(depth int) (models.Expression, eval) {
	if depth == 0 {
		return g.leaf(2)
	}
	k := sym.Choose("expr", 8)
	if k == 0 {
		return g.leaf(4)
	}
	fn := []string{"", "+", "-", "*", "/", "sum", "if", ""}[k]
	if k == 7 { // wrong number of arguments
		w := []struct {
			fn string
			n  int
		}{{"+", 1}, {"-", 3}, {"*", 0}, {"/", 1}, {"isMissing", 2}, {"isNotMissing", 0}, {"if", 1}, {"if", 4}, {"+", 3}, {"isMissing", 0}}[sym.Choose("wrong", 10)]
		a := &models.Apply{Function: w.fn}
		for i := 0; i < w.n; i++ {
			a.Expressions = append(a.Expressions, &models.Constant{DataType: models.DataType("double"), Value: "1"})
		}
		g.desc += " wrong " + w.fn
		return a, eval{err: true}
	}
	return g.apply(fn, depth-1)
}

func (g *c09gen) apply(fn string, depth int) (models.Expression, eval) {
	g.desc += " " + fn + "("
	a := &models.Apply{Function: fn}
	add := func(e models.Expression, v eval) eval {
		a.Expressions = append(a.Expressions, e)
		return v
	}
	var r eval
	switch fn {
	case "+", "-", "*", "/":
		// one operand of full depth, the other a leaf
		var x, y eval
		if depth > 0 && sym.Choose("deep", 2) == 1 {
			x = add(g.leaf(2))
			y = add(g.expr(depth))
		} else {
			x = add(g.expr(depth))
			y = add(g.leaf(2))
		}
		switch {
		case x.err || y.err:
			r = eval{err: true}
		case x.missing || y.missing:
			r = eval{missing: true}
		default:
			switch fn {
			case "+":
				r.f = x.f + y.f
			case "-":
				r.f = x.f - y.f
			case "*":
				r.f = x.f * y.f
			case "/":
				r.f = x.f / y.f
			}
		}
	case "sum":
		n := 1 + sym.Choose("args", 3)
		for i := 0; i < n; i++ {
			var x eval
			if i == 1 {
				x = add(g.expr(depth))
			} else {
				x = add(g.leaf(1))
			}
			if x.err {
				r.err = true
			}
			if !x.missing {
				r.f += x.f
			}
		}
	case "if":
		odd := sym.Choose("odd", 2) == 1 // an unusual condition, then with simple branches
		var c, x, y eval
		if odd {
			c = add(g.oddCond())
			x, y = add(g.leaf(3)), add(g.leaf(1))
		} else {
			c = add(g.cond())
			x, y = add(g.expr(depth)), add(g.leaf(4))
		}
		switch {
		case c.err:
			r = eval{err: true}
		case c.b:
			r = x
		default:
			r = y
		}
	case "isMissing", "isNotMissing":
		x := add(g.expr(depth))
		r = eval{isBool: true, err: x.err, b: x.missing == (fn == "isMissing")}
	}
	g.desc += " )"
	return a, r
}

// C09: derived fields of every kind of model.
func C09_Expressions() {
	g := &c09gen{row: evaluation.DataRow{}}
	e, want := g.expr(sym.Bound(2, 3))
	var lt models.LocalTransformations
	lt.DerivedFields = []models.DerivedField{{Name: "d", DataType: models.DataType("double"), OpType: models.OpType("continuous"), Expression: e}}
	// a later derived field may use an earlier one
	kind := sym.Choose("model", 4)
	chained := kind == 0 || kind == 3
	if kind == 1 || kind == 3 {
		// the row's own entry of that name gives way to the derived field
		g.row["d"] = evaluation.NewValue(99.5)
	}
	last := "d"
	if chained {
		last = "e"
		lt.DerivedFields = append(lt.DerivedFields, models.DerivedField{Name: "e", DataType: models.DataType("double"), OpType: models.OpType("continuous"),
			Expression: &models.Apply{Function: "-", Expressions: []models.Expression{&models.FieldRef{Field: "d"}, &models.Constant{DataType: models.DataType("double"), Value: "2.5"}}}})
		want.f = want.f - 2.5
	}
	what := "derived field" + g.desc
	if want.isBool {
		return
	}
	reg := &models.RegressionModel{FunctionName: models.MiningFunction("regression"),
		RegressionTables: []models.RegressionTable{{NumericPredictor: []models.NumericPredictor{{Name: last, Coefficient: 1, Exponent: 1}}}},
		Output:           models.Output{Fields: []models.OutputField{{Name: "out", Feature: models.ResultFeature("predictedValue")}}}}
	dd := dict()
	switch kind {
	case 0:
		reg.LocalTransformations = lt
		m := build(dd, reg)
		c09value(m, g.row, want, what)
	case 1:
		m := build(dd, &models.MiningModel{FunctionName: models.MiningFunction("regression"), LocalTransformations: lt,
			Segmentation: models.Segmentation{MultipleModelMethod: models.MultipleModelMethod("modelChain"), Segments: []models.Segment{
				{Predicates: []models.Predicate{&models.True{}}, Models: []models.ModelElement{reg}}}}})
		c09value(m, g.row, want, what)
	default:
		t := predTree(&models.SimplePredicate{Field: models.FieldName(last), Operator: models.SimplePredicateOperator("isMissing")})
		t.LocalTransformations = lt
		out, err := build(dd, t).Evaluate(g.row)
		if want.err {
			sym.Reach("error")
			sym.Assert(err != nil, what+": no error")
			return
		}
		sym.Assert(err == nil, what+": an error")
		sym.Reach("missing")
		sym.Assert((out["score"].Float64() == 1) == want.missing, what+": missing and present are confused")
	}
}

func c09value(m evaluation.Model, row evaluation.DataRow, want eval, what string) {
	out, err := m.Evaluate(row)
	if want.err || want.missing {
		sym.Assert(err != nil, what+": a number where none is expected")
		return
	}
	sym.Assert(err == nil, what+": an error")
	v, ok := out["out"]
	sym.Assert(ok, what+": no result")
	sym.Reach("value")
	sym.AssertClose(v.Float64(), want.f, what+": wrong value")
}
