package props

import (
	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() { Registry["C30"] = C30_SetPredicates }

// C30: membership in a set, on its own and inside a compound predicate.
func C30_SetPredicates() {
	ty := sym.Choose("type", len(c01types))
	numeric := ty < 3
	n := sym.Choose("elements", sym.Bound(4, 6))
	// what varies besides the set: the array's writing, or the place of the predicate
	arrayType, space := models.ArrayTypeType("string"), ""
	nested := 0
	if vary := sym.Choose("vary", 2); vary == 0 {
		k := sym.Choose("arrayType", 4)
		arrayType = []models.ArrayTypeType{models.ArrayTypeType("string"), models.ArrayTypeType("real"), models.ArrayTypeType("int"), ""}[k]
		space = []string{"", " ", "\n\t", "\r\n "}[k]
	} else {
		sym.Assume(ty == 4)
		nested = 1 + sym.Choose("nested", 2)
	}
	isIn := sym.Choose("isIn", 2) == 1
	p := &models.SimpleSetPredicate{Field: "x", BooleanOperator: models.SimpleSetPredicateOperator("isNotIn")}
	if isIn {
		p.BooleanOperator = models.SimpleSetPredicateOperator("isIn")
	}
	what := string(p.BooleanOperator) + " " + string(c01types[ty])

	// the elements
	raw := space
	var fs []float64
	var is []int64
	var ss []string
	var bs []bool
	for i := 0; i < n; i++ {
		if i > 0 {
			raw += " "
		}
		switch {
		case ty == 2:
			c := sym.Byte("e" + digit[i])
			sym.Assume(sym.And(c >= '0', c <= '9'))
			v := int64(c - '0')
			t := string([]byte{c})
			if i == 1 {
				t, v = "-"+t, -v
			} else if i == 2 {
				t, v = "922337203685477580"+[]string{"7", "6"}[sym.Choose("big", sym.Bound(1, 2))], 9223372036854775807
				if t[len(t)-1] == '6' {
					v--
				}
			}
			raw += t
			is = append(is, v)
		case numeric:
			k := i
			if i == 0 {
				k = sym.Choose("e", 4)
			}
			k %= 4
			raw += []string{"1.5", "-2", "1e3", "0"}[k]
			fs = append(fs, []float64{1.5, -2, 1000, 0}[k])
		case ty == 3:
			t := symText("e"+digit[i], sym.Choose("len"+digit[i], 3))
			switch {
			case len(t) == 0:
				raw += "\"\""
			case i == 1:
				t = t[:1] + " " + t[1:]
				raw += "\"" + t + "\""
			default:
				raw += t
			}
			ss = append(ss, t)
		default:
			k := sym.Choose("e"+digit[i], 4)
			raw += []string{"true", "false", "1", "0"}[k]
			bs = append(bs, k%2 == 0)
		}
	}
	p.Array = models.Array{Type: arrayType, RawValue: raw}

	dd := dict(append(boolFields(1), models.DataField{Name: "x", DataType: c01types[ty]})...)
	row := evaluation.DataRow{"other": evaluation.NewValue(1.0)}
	want := tU
	presence := sym.Choose("presence", 3)
	in := false
	if presence == 1 {
		row["x"] = evaluation.NewValue(nil)
	} else if presence == 2 {
		switch {
		case ty == 2:
			v := number("x", sym.Choose("carrier", len(carriers)))
			row["x"] = evaluation.NewValue(v.v)
			for _, e := range is {
				in = sym.Or(in, v.asInt() == e)
			}
		case numeric:
			v := number("x", sym.Choose("carrier", len(carriers)))
			if ty == 1 {
				// representable as float32, so that reading as float and as double agree
				if v.isInt {
					sym.Assume(sym.And(v.i >= -1<<24, v.i <= 1<<24))
				} else {
					sym.Assume(sym.SameF(float64(float32(v.f)), v.f))
				}
			}
			row["x"] = evaluation.NewValue(v.v)
			for _, e := range fs {
				in = sym.Or(in, v.f == e)
			}
		case ty == 3:
			s := symText("x", sym.Choose("len", 3))
			if sym.Choose("blank", 2) == 1 {
				s += " "
			}
			row["x"] = evaluation.NewValue(s)
			for _, e := range ss {
				in = sym.Or(in, s == e)
			}
		default:
			b := sym.Bool("x")
			row["x"] = evaluation.NewValue(b)
			for _, e := range bs {
				in = sym.Or(in, b == e)
			}
		}
	}
	var pred models.Predicate = p
	other := tU
	if nested > 0 {
		other = tv(sym.Choose("other", 3))
		op := models.CompoundPredicateOperator("and")
		if nested == 2 {
			op = models.CompoundPredicateOperator("surrogate")
		}
		pred = &models.CompoundPredicate{BooleanOperator: op, Predicates: []models.Predicate{p, isTrue(0)}}
		setTV(row, 0, other)
		what += " in a compound"
	}
	got := evalPred(dd, pred, row, what)
	if presence != 2 {
		switch {
		case nested == 2:
			want = other
		case nested == 1 && other == tF:
			want = tF
		}
		sym.Reach("missing")
		sym.Assert(got == want, what+" of a missing value: got "+got.String()+", want "+want.String())
		return
	}
	sym.Reach("present")
	holds := in == isIn
	if nested != 1 {
		sym.Assert(got != tU, what+" of a present value is UNKNOWN")
		sym.Assert((got == tT) == holds, what+" of a present value: wrong truth value")
		return
	}
	// Kleene's and
	sym.Assert((got == tT) == sym.And(holds, other == tT), what+": wrong truth value")
	sym.Assert((got == tF) == sym.Or(!holds, other == tF), what+": wrong truth value")
}
