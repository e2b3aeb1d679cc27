package props

import (
	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() { Registry["C10"] = C10_MapValues }

// C10: a mapping of one or two inputs with an arbitrary table, on its own and as a derived field.
func C10_MapValues() {
	inputs := 1 + sym.Choose("two", 2)
	naming := sym.Choose("naming", sym.Bound(3, 4))
	rows := sym.Choose("rows", sym.Bound(3, 4))
	maxText := sym.Bound(2, 3)
	if inputs == 2 {
		maxText = sym.Bound(1, 2)
	}

	cols := [][]string{{"data:input", "data:input2", "data:output"}, {"data:k", "data:k2", "data:v"}, {"output", "x", "input"}, {"my:c", "my:d", "my:o"}}[naming]
	local := [][]string{{"input", "input2", "output"}, {"k", "k2", "v"}, {"output", "x", "input"}, {"c", "d", "o"}}[naming]

	// the row of data
	fields := []string{"a", "b"}
	vals := make([]interface{}, inputs)
	texts := make([]string, inputs)
	row := evaluation.DataRow{"other": evaluation.NewValue("other")}
	kind := sym.Choose("kind", 7)
	odd := 0 // the input of that kind
	if inputs == 2 && kind > 0 && naming == 0 {
		odd = sym.Choose("odd", 2)
	}
	for i := 0; i < inputs; i++ {
		vals[i], texts[i] = nil, ""
		k := kind
		if i != odd {
			k = 0
		}
		switch k {
		case 0:
			texts[i] = text("in"+digit[i], maxText)
			vals[i] = texts[i]
		case 1:
			vals[i], texts[i] = 5, "5"
		case 2:
			vals[i], texts[i] = -2.5, "-2.5"
		case 3:
			vals[i], texts[i] = true, "true"
		case 4:
			vals[i], texts[i] = "<nil>", "<nil>"
		case 5:
			continue
		}
		row[fields[i]] = evaluation.NewValue(vals[i])
	}

	// the table
	m := &models.MapValues{OutputColumn: cols[2]}
	for i := 0; i < inputs; i++ {
		m.FieldColumnPairs = append(m.FieldColumnPairs, models.FieldColumnPair{Field: fields[i], Column: cols[i]})
	}
	keys := make([][]string, rows)
	outs := make([]string, rows)
	tables := []models.InlineTable{{}, {}}
	split := sym.Choose("split", rows+1)
	for r := 0; r < rows; r++ {
		cells := models.Row{"other": texts[0]}
		keys[r] = make([]string, inputs)
		for i := 0; i < inputs; i++ {
			keys[r][i] = text("key"+digit[r]+digit[i], maxText)
			if kind > 0 && i == odd && r == 0 {
				keys[r][i] = []string{"", "5", "-2.5", "true", "<nil>", "<nil>", "<nil>"}[kind]
			}
			cells[local[i]] = keys[r][i]
		}
		outs[r] = "4" + digit[r]
		cells[local[2]] = outs[r]
		t := 0
		if r >= split {
			t = 1
		}
		tables[t].Rows = append(tables[t].Rows, cells)
	}
	m.InlineTables = tables
	// rows of a mapping are unique
	for r := 0; r < rows; r++ {
		for q := 0; q < r; q++ {
			same := true
			for i := 0; i < inputs; i++ {
				same = sym.And(same, keys[r][i] == keys[q][i])
			}
			sym.Assume(!same)
		}
	}

	missing := kind >= 5
	n := 2
	if missing {
		n = 3
	}
	mapMissing := sym.Choose("mapMissing", n)
	match := -1
	for r := 0; r < rows && !missing; r++ {
		same := true
		for i := 0; i < inputs; i++ {
			same = sym.And(same, keys[r][i] == texts[i])
		}
		if same {
			match = r
		}
	}

	// the default
	def := ""
	var defVal interface{}
	ok := true
	hasDef := true
	switch sym.Choose("default", 8) {
	case 0:
		hasDef = false
	case 1:
		def, m.DataType, defVal = "7", models.DataType("double"), 7.0
	case 2:
		def, m.DataType, defVal = "7", models.DataType("integer"), int64(7)
	case 3:
		def, m.DataType, defVal = "true", models.DataType("boolean"), true
	case 4:
		def, m.DataType, defVal = "", models.DataType("string"), ""
	case 5:
		def, m.DataType, ok = "x", models.DataType("double"), false
	case 6:
		def, m.DataType, ok = "1.5", models.DataType("integer"), false
	case 7:
		def, m.DataType, ok = "yes", models.DataType("boolean"), false
	}
	if hasDef {
		m.DefaultValue = &def
	}

	missTo := "9"
	if mapMissing > 0 {
		if mapMissing == 2 {
			missTo = "oops"
		}
		m.MapMissingTo = &missTo
	}

	var want interface{}
	switch {
	case missing && mapMissing > 0:
		sym.Reach("missing")
		want, ok = nil, true
		switch m.DataType {
		case models.DataType("double"):
			want, ok = 9.0, mapMissing == 1
		case models.DataType("integer"):
			want, ok = int64(9), mapMissing == 1
		case models.DataType("string"):
			want = missTo
		default:
			ok = false // neither a boolean nor of no type
		}
	case match >= 0:
		want, ok = outs[match], true
		sym.Reach("matched")
	case hasDef:
		want = defVal
		sym.Reach("default")
	default:
		if inputs > 1 {
			return // not claimed
		}
		want, ok = vals[0], true
		sym.Reach("input")
	}

	if sym.Choose("through", 2) == 0 {
		v, err := evaluation.HandleExpression(m, row, dict(), &models.TransformationDictionary{}, &models.LocalTransformations{}, &models.MiningSchema{})
		if !ok {
			sym.Assert(err != nil, "a default that does not parse is accepted")
			return
		}
		sym.Assert(err == nil, "mapping fails")
		sameValue(v.Raw(), want, "mapped value")
		return
	}
	// a derived field that the predicate of a tree reads as text
	lt := models.LocalTransformations{DerivedFields: []models.DerivedField{{Name: "d", DataType: models.DataType("string"), OpType: models.OpType("categorical"), Expression: m}}}
	lit := text("literal", maxText)
	t := predTree(&models.SimplePredicate{Field: "d", Operator: models.SimplePredicateOperator("equal"), Value: lit})
	t.LocalTransformations = lt
	mdl := build(dict(models.DataField{Name: "a", DataType: models.DataType("string")}, models.DataField{Name: "b", DataType: models.DataType("string")}), t)
	out, err := mdl.Evaluate(row)
	if !ok {
		sym.Assert(err != nil, "a model whose default does not parse evaluates")
		return
	}
	sym.Assert(err == nil, "evaluation fails")
	sc, has := out["score"]
	if want == nil {
		sym.Assert(!has, "a missing derived field is compared")
		return
	}
	sym.Assert(has, "no score")
	s := ""
	switch w := want.(type) {
	case string:
		s = w
	default:
		s = evaluation.NewValue(w).String()
	}
	sym.Assert((sc.Float64() == 1) == (s == lit), "derived field differs from the mapped value")
}

// sameValue requires two raw values to be identical in type and content.
func sameValue(got, want interface{}, what string) {
	switch w := want.(type) {
	case string:
		g, ok := got.(string)
		sym.Assert(ok, what+": not the text")
		sym.Assert(g == w, what+": other text")
	case float64:
		g, ok := got.(float64)
		sym.Assert(ok, what+": not the float")
		sym.Assert(g == w, what+": other float")
	case int64:
		g, ok := got.(int64)
		sym.Assert(ok, what+": not the integer")
		sym.Assert(g == w, what+": other integer")
	case int:
		g, ok := got.(int)
		sym.Assert(ok, what+": not the int")
		sym.Assert(g == w, what+": other int")
	case bool:
		g, ok := got.(bool)
		sym.Assert(ok, what+": not the bool")
		sym.Assert(g == w, what+": other bool")
	case nil:
		sym.Assert(got == nil, what+": not missing")
	}
}
