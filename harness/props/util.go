package props

import (
	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

// tv is a three-valued truth value.
type tv int

const (
	tF tv = iota
	tU
	tT
)

func (t tv) String() string { return []string{"FALSE", "UNKNOWN", "TRUE"}[t] }

var digit = []string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "10", "11", "12", "13", "14", "15", "16", "17", "18", "19", "20",
	"21", "22", "23", "24", "25", "26", "27", "28", "29", "30", "31", "32"}

// pname is the name of the i-th boolean predicate field.
func pname(i int) string { return "p" + digit[i] }

// boolFields declares n boolean fields p0..p(n-1).
func boolFields(n int) []models.DataField {
	var r []models.DataField
	for i := 0; i < n; i++ {
		r = append(r, models.DataField{Name: models.FieldName(pname(i)), DataType: models.DataType("boolean"), OpType: models.OpType("categorical")})
	}
	return r
}

// isTrue is the predicate "p_i equal true".
func isTrue(i int) models.Predicate {
	return &models.SimplePredicate{Field: models.FieldName(pname(i)), Operator: models.SimplePredicateOperator("equal"), Value: "true"}
}

// setTV puts a value for p_i in the row that makes isTrue(i) evaluate to t.
func setTV(row evaluation.DataRow, i int, t tv) {
	switch t {
	case tT:
		row[pname(i)] = evaluation.NewValue(true)
	case tF:
		row[pname(i)] = evaluation.NewValue(false)
	}
}

func dict(fs ...models.DataField) *models.DataDictionary {
	return &models.DataDictionary{NumberOfFields: uint(len(fs)), DataFields: fs}
}

// predTree is a two-node regression tree: its root is TRUE and scores 0, its only child has the given
// predicate and scores 1, and an UNKNOWN child yields no prediction.
func predTree(p models.Predicate) *models.TreeModel {
	return &models.TreeModel{
		FunctionName:         models.MiningFunction("regression"),
		MissingValueStrategy: models.MissingValueStrategy("nullPrediction"),
		Node: models.Node{ID: "r", Score: "0", Predicate: &models.True{}, Nodes: []models.Node{
			{ID: "c", Score: "1", Predicate: p},
		}},
	}
}

// build compiles a model that must build.
func build(dd *models.DataDictionary, mdl models.ModelElement) evaluation.Model {
	m, err := evaluation.NewModel(dd, &models.TransformationDictionary{}, mdl)
	if err != nil {
		sym.Observe("builderr", err)
		sym.Fail("a supported model does not build")
	}
	return m
}

// evalPred is the truth value of the predicate on the row.
func evalPred(dd *models.DataDictionary, p models.Predicate, row evaluation.DataRow, what string) tv {
	m, err := evaluation.NewModel(dd, &models.TransformationDictionary{}, predTree(p))
	if err != nil {
		sym.Fail(what + ": a supported predicate does not compile")
	}
	out, err := m.Evaluate(row)
	if err != nil {
		sym.Fail(what + ": evaluation failed")
	}
	v, ok := out["score"]
	if !ok {
		return tU
	}
	f := v.Float64()
	if f == 1 {
		return tT
	}
	if f != 0 {
		sym.Fail(what + ": neither score")
	}
	return tF
}

// num is a symbolic number stored in a row under some Go type: f is its value as float64, i its value as
// int64, and isInt tells whether the number is an integer (then i is exact).
type num struct {
	v     interface{}
	f     float64
	i     int64
	isInt bool
	name  string
}

var carriers = []string{"float64", "float32", "int", "int64", "int32", "int16", "int8", "uint", "uint64", "uint32", "uint16", "uint8", "text-f", "text-i"}

// number is an arbitrary number in carrier k. Floats are assumed in range of int64.
func number(name string, k int) num {
	switch carriers[k] {
	case "float64", "float32", "text-f":
		var n num
		if carriers[k] == "float32" {
			x := sym.Float32(name)
			n = num{v: x, f: float64(x)}
		} else {
			x := sym.Float64(name)
			n = num{v: x, f: x}
			if carriers[k] == "text-f" {
				sym.Assume(sym.Finite(x))
				n.v = sym.FormatF(x)
			}
		}
		n.name = carriers[k]
		return n
	}
	x := sym.Int64(name)
	n := num{isInt: true, name: carriers[k]}
	switch carriers[k] {
	case "int":
		n.v, n.f, n.i = int(x), float64(int(x)), x
	case "int64":
		n.v, n.f, n.i = x, float64(x), x
	case "int32":
		n.v, n.f, n.i = int32(x), float64(int32(x)), int64(int32(x))
	case "int16":
		n.v, n.f, n.i = int16(x), float64(int16(x)), int64(int16(x))
	case "int8":
		n.v, n.f, n.i = int8(x), float64(int8(x)), int64(int8(x))
	case "uint":
		sym.Assume(x >= 0)
		n.v, n.f, n.i = uint(x), float64(uint(x)), x
	case "uint64":
		sym.Assume(x >= 0)
		n.v, n.f, n.i = uint64(x), float64(uint64(x)), x
	case "uint32":
		n.v, n.f, n.i = uint32(x), float64(uint32(x)), int64(uint32(x))
	case "uint16":
		n.v, n.f, n.i = uint16(x), float64(uint16(x)), int64(uint16(x))
	case "uint8":
		n.v, n.f, n.i = uint8(x), float64(uint8(x)), int64(uint8(x))
	case "text-i":
		n.v, n.f, n.i = sym.FormatI(x), float64(x), x
	}
	return n
}

// asInt is the number truncated toward zero; a float is assumed to be in range.
func (n num) asInt() int64 {
	if n.isInt {
		return n.i
	}
	sym.Assume(sym.And(n.f > -9e18, n.f < 9e18))
	return int64(n.f)
}
