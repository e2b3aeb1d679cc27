package props

import (
	"github.com/flukeish/pmml/evaluation"

	"verif/harness/sym"
)

func init() { Registry["C08"] = C08_ValueConversions }

// C08: conversions of row values.
func C08_ValueConversions() {
	mode := sym.Choose("mode", 6)
	switch mode {
	case 0: // integers of every carrier type, full range
		x := sym.Int64("x")
		var v evaluation.Value
		var raw interface{}
		var f float64
		var g float32
		var i int64
		inRange := true
		name := carriers[2+sym.Choose("carrier", 10)]
		switch name {
		case "int":
			raw, f, g, i = int(x), float64(int(x)), float32(int(x)), x
		case "int64":
			raw, f, g, i = x, float64(x), float32(x), x
		case "int32":
			raw, f, g, i = int32(x), float64(int32(x)), float32(int32(x)), int64(int32(x))
		case "int16":
			raw, f, g, i = int16(x), float64(int16(x)), float32(int16(x)), int64(int16(x))
		case "int8":
			raw, f, g, i = int8(x), float64(int8(x)), float32(int8(x)), int64(int8(x))
		case "uint":
			raw, f, g, i = uint(x), float64(uint(x)), float32(uint(x)), x
			inRange = x >= 0
		case "uint64":
			raw, f, g, i = uint64(x), float64(uint64(x)), float32(uint64(x)), x
			inRange = x >= 0
		case "uint32":
			raw, f, g, i = uint32(x), float64(uint32(x)), float32(uint32(x)), int64(uint32(x))
		case "uint16":
			raw, f, g, i = uint16(x), float64(uint16(x)), float32(uint16(x)), int64(uint16(x))
		case "uint8":
			raw, f, g, i = uint8(x), float64(uint8(x)), float32(uint8(x)), int64(uint8(x))
		}
		v = evaluation.NewValue(raw)
		sym.Reach("int")
		sym.Assert(v.Float64() == f, name+" read as float64")
		sym.Assert(v.Float32() == g, name+" read as float32")
		sym.Assert(sym.Implies(inRange, v.Int64() == i), name+" read as int64")
		sym.Assert(!v.Bool(), name+" read as bool")
		sym.Assert(v.Raw() == raw, name+" raw")
	case 1: // floats and decimal text
		name := []string{"float64", "float32", "text-f", "text-i"}[sym.Choose("carrier", 4)]
		k := 0
		for j, c := range carriers {
			if c == name {
				k = j
			}
		}
		n := number("x", k)
		v := evaluation.NewValue(n.v)
		sym.Reach("float")
		sym.Assert(sym.SameF(v.Float64(), n.f), name+" read as float64")
		if n.isInt {
			// the text may be parsed as either type before it is rounded to float32
			sym.Assert(v.Int64() == n.i, name+" read as int64")
			sym.Assume(sym.And(n.i >= -1<<53, n.i <= 1<<53))
			sym.Assert(v.Float32() == float32(n.f), name+" read as float32")
		} else {
			g := v.Float32()
			sym.Assert(sym.SameF(float64(g), float64(float32(n.f))), name+" read as float32")
			sym.Assert(v.Raw() == n.v || n.f != n.f, name+" raw")
			i := v.Int64()
			sym.Assert(sym.Or(!(n.f > -9e18), !(n.f < 9e18), i == int64(n.f)), name+" read as int64")
		}
		one := sym.And(len(name) > 4, name[:4] == "text", n.f == 1)
		sym.Assert(v.Bool() == one, name+" read as bool")
	case 2: // booleans, nil and text that is not a number
		switch sym.Choose("kind", 3) {
		case 0:
			b := sym.Bool("b")
			v := evaluation.NewValue(b)
			sym.Assert(v.Bool() == b, "bool read as bool")
			sym.Assert(v.Float64() == 0 && v.Float32() == 0 && v.Int64() == 0, "bool read as a number")
			sym.Assert(v.Raw() == interface{}(b), "bool raw")
		case 1:
			v := evaluation.NewValue(nil)
			sym.Assert(!v.Bool() && v.Float64() == 0 && v.Float32() == 0 && v.Int64() == 0, "nil read as a number")
			sym.Assert(v.Raw() == nil, "nil raw")
		case 2:
			s := symText("s", sym.Choose("len", 3))
			v := evaluation.NewValue(s)
			sym.Reach("text")
			sym.Assert(v.Float64() == 0, "text read as float64")
			sym.Assert(v.Float32() == 0, "text read as float32")
			sym.Assert(v.Int64() == 0, "text read as int64")
			sym.Assert(v.Bool() == (s == "t"), "text read as bool")
			sym.Assert(v.String() == s, "text read as text")
			sym.Assert(v.Raw() == interface{}(s), "text raw")
		}
	case 3: // text forms of numbers
		t := []struct {
			s string
			f float64
			i int64
		}{{"1e3", 1000, 1000}, {"75.9", 75.9, 75}, {"-75.9", -75.9, -75}, {"+5", 5, 5}, {".5", 0.5, 0}, {"0007", 7, 7}, {"-0", 0, 0}, {"9007199254740993", 9007199254740992, 9007199254740993},
			{"1.5e2", 150, 150}, {"12abc", 0, 0}, {"", 0, 0}, {"1,5", 0, 0},
			{"010", 10, 10}, {"-012", -12, -12}, {"08", 8, 8}, {"0x1F", 0, 0}, {"0b11", 0, 0}, {"0o17", 0, 0}, {"1000000", 1000000, 1000000}}[sym.Choose("form", 19)]
		v := evaluation.NewValue(t.s)
		sym.Assert(v.Float64() == t.f, "text "+t.s+" read as float64")
		sym.Assert(v.Float32() == float32(t.f), "text "+t.s+" read as float32")
		sym.Assert(v.Int64() == t.i, "text "+t.s+" read as int64")
		sym.Assert(v.String() == t.s, "text "+t.s+" read as text")
	case 5: // the text of numbers and booleans
		t := []struct {
			v interface{}
			s string
		}{{uint64(1<<63 + 12345), "9223372036854788153"}, {uint64(1<<64 - 1), "18446744073709551615"}, {uint(1<<64 - 1), "18446744073709551615"}, {int64(-1 << 63), "-9223372036854775808"}, {int64(1<<53 + 1), "9007199254740993"},
			{int(-7), "-7"}, {int8(-128), "-128"}, {uint8(200), "200"}, {int16(-32768), "-32768"}, {uint16(65535), "65535"}, {int32(-1 << 31), "-2147483648"}, {uint32(1<<32 - 1), "4294967295"},
			{true, "true"}, {false, "false"}, {0.5, "0.5"}, {float32(0.1), "0.1"}, {-2.25, "-2.25"}}[sym.Choose("of", 17)]
		v := evaluation.NewValue(t.v)
		sym.Reach("number")
		sym.Assert(v.String() == t.s, "number read as text, not "+t.s)
	case 4: // text forms of booleans
		t := []struct {
			s string
			b bool
		}{{"true", true}, {"false", false}, {"1", true}, {"0", false}, {"TRUE", true}, {"True", true}, {"False", false}, {"yes", false}, {" true", false}, {"1.0", false}}[sym.Choose("form", 10)]
		sym.Assert(evaluation.NewValue(t.s).Bool() == t.b, "text "+t.s+" read as bool")
	}
}
