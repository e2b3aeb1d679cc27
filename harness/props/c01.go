package props

import (
	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() { Registry["C01"] = C01_SimplePredicates }

var c01ops = []models.SimplePredicateOperator{
	models.SimplePredicateOperator("equal"), models.SimplePredicateOperator("notEqual"),
	models.SimplePredicateOperator("lessThan"), models.SimplePredicateOperator("lessOrEqual"),
	models.SimplePredicateOperator("greaterThan"), models.SimplePredicateOperator("greaterOrEqual"),
	models.SimplePredicateOperator("isMissing"), models.SimplePredicateOperator("isNotMissing"),
}

func cmpF(op int, a, b float64) bool {
	switch op {
	case 0:
		return a == b
	case 1:
		return a != b
	case 2:
		return a < b
	case 3:
		return a <= b
	case 4:
		return a > b
	}
	return a >= b
}

func cmpI(op int, a, b int64) bool {
	switch op {
	case 0:
		return a == b
	case 1:
		return a != b
	case 2:
		return a < b
	case 3:
		return a <= b
	case 4:
		return a > b
	}
	return a >= b
}

var c01types = []models.DataType{models.DataType("double"), models.DataType("float"), models.DataType("integer"), models.DataType("string"), models.DataType("boolean")}

// C01 builds a two-node tree around one simple predicate and compares the truth value it observes with the
// one computed here from the declared type, the operator, the literal and the number in the row.
func C01_SimplePredicates() {
	ty := sym.Choose("type", len(c01types))
	op := sym.Choose("op", len(c01ops))
	numeric := ty < 3
	if !numeric && op >= 2 && op < 6 {
		sym.Assume(false) // order comparisons are specified for numeric fields only
	}
	what := string(c01types[ty]) + " " + string(c01ops[op])
	dd := dict(models.DataField{Name: "x", DataType: c01types[ty], OpType: models.OpType("continuous")})
	p := &models.SimplePredicate{Field: "x", Operator: c01ops[op]}
	row := evaluation.DataRow{"other": evaluation.NewValue(1.0)}

	// the literal
	var litF float64
	var litI int64
	var litB bool
	var litS string
	if op < 6 {
		switch ty {
		case 0:
			litF = sym.Float64("lit")
			sym.Assume(sym.Finite(litF))
			p.Value = sym.FormatF(litF)
		case 1:
			x := sym.Float32("lit")
			litF = float64(x)
			sym.Assume(sym.Finite(litF))
			p.Value = sym.FormatF(litF)
		case 2:
			litI = sym.Int64("lit")
			p.Value = sym.FormatI(litI)
		case 3:
			litS = symText("lit", sym.Choose("litlen", 3))
			p.Value = litS
		case 4:
			litB = sym.Choose("lit", 2) == 1
			if litB {
				p.Value = []string{"true", "1"}[sym.Choose("litform", 2)]
			} else {
				p.Value = []string{"false", "0"}[sym.Choose("litform", 2)]
			}
		}
	}

	// the value: absent, nil, or present
	presence := sym.Choose("presence", 3)
	if presence != 2 {
		if presence == 1 {
			row["x"] = evaluation.NewValue(nil)
		}
		got := evalPred(dd, p, row, what)
		want := tU
		if op == 6 {
			want = tT
		} else if op == 7 {
			want = tF
		}
		sym.Reach("missing")
		sym.Assert(got == want, what+" of a missing value: got "+got.String()+", want "+want.String())
		return
	}
	var holds bool
	switch {
	case numeric:
		n := number("x", sym.Choose("carrier", len(carriers)))
		what += " (" + n.name + ")"
		row["x"] = evaluation.NewValue(n.v)
		switch {
		case op == 6:
			holds = false
		case op == 7:
			holds = true
		case ty == 2:
			holds = cmpI(op, n.asInt(), litI)
		case ty == 1:
			// both representable as float32, so that reading as float and as double agree
			sym.Assume(sym.SameF(float64(float32(n.f)), n.f))
			if n.isInt {
				sym.Assume(sym.And(n.i >= -1<<53, n.i <= 1<<53))
			}
			holds = cmpF(op, n.f, litF)
		default:
			holds = cmpF(op, n.f, litF)
		}
	case ty == 3:
		var s string
		if sym.Choose("scarrier", 2) == 0 {
			s = symText("x", sym.Choose("len", 3))
			row["x"] = evaluation.NewValue(s)
		} else {
			i := sym.Choose("digit", 10)
			s = digit[i]
			row["x"] = evaluation.NewValue(i)
		}
		switch op {
		case 0:
			holds = s == litS
		case 1:
			holds = s != litS
		default:
			holds = op == 7
		}
	default:
		b := sym.Bool("x")
		neither := false
		switch sym.Choose("bcarrier", 4) {
		case 0:
			row["x"] = evaluation.NewValue(b)
		case 1:
			if b {
				row["x"] = evaluation.NewValue("true")
			} else {
				row["x"] = evaluation.NewValue("false")
			}
		case 2:
			if b {
				row["x"] = evaluation.NewValue("1")
			} else {
				row["x"] = evaluation.NewValue("0")
			}
		case 3: // text that is no boolean equals neither
			row["x"] = evaluation.NewValue("maybe")
			neither = true
		}
		switch op {
		case 0:
			holds = sym.And(!neither, b == litB)
		case 1:
			holds = sym.Or(neither, b != litB)
		default:
			holds = op == 7
		}
	}
	got := evalPred(dd, p, row, what)
	sym.Reach("present")
	sym.Assert(got != tU, what+" of a present value is UNKNOWN")
	sym.Assert((got == tT) == holds, what+" of a present value: wrong truth value")
}

// symText is an arbitrary text of n printable ASCII characters.
func symText(name string, n int) string {
	b := make([]byte, n)
	for i := 0; i < n; i++ {
		c := sym.Byte(name + digit[i])
		sym.Assume(sym.And(c >= 'a', c <= 'z'))
		b[i] = c
	}
	return string(b)
}
