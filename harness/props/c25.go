package props

import (
	"math"
	"reflect"

	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() {
	Registry["C25"] = C25_Arrays
	Registry["C26"] = C26_Factories
}

func blank(c byte) bool { return sym.Or(c == ' ', c == '\t', c == '\n', c == '\r') }

// tokens are the elements of an array's content; ok is false when a quote is not closed.
func tokens(raw string) (elems []string, ok bool) {
	for len(raw) > 0 {
		if blank(raw[0]) {
			raw = raw[1:]
			continue
		}
		elem := ""
		inside := false
		for len(raw) > 0 && (inside || !blank(raw[0])) {
			if raw[0] == '"' {
				inside = !inside
				raw = raw[1:]
				continue
			}
			if len(raw) > 1 && raw[0] == '\\' && sym.Or(raw[1] == '"', raw[1] == '\\') {
				raw = raw[1:]
			}
			elem += raw[:1]
			raw = raw[1:]
		}
		if inside {
			return nil, false
		}
		elems = append(elems, elem)
	}
	return elems, true
}

// integer is the number a decimal text stands for.
func integer(s string) (n int64, ok bool) {
	neg := false
	if len(s) > 0 && sym.Or(s[0] == '+', s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if len(s) == 0 {
		return 0, false
	}
	ok = true
	for i := 0; i < len(s); i++ {
		ok = sym.And(ok, s[i] >= '0', s[i] <= '9')
		n = n*10 + int64(s[i]-'0')
	}
	if neg {
		n = -n
	}
	return n, ok
}

var reals = []struct {
	s  string
	f  float64
	ok bool
}{{"1.5", 1.5, true}, {"-2", -2, true}, {"1e3", 1000, true}, {"+.25", 0.25, true}, {"x", 0, false}, {"1,5", 0, false}, {"1;2", 0, false}, {"1.5.2", 0, false}}

var longReals = []struct {
	s  string
	f  float64
	ok bool
}{{"100000000000000000000", 1e20, true}, {"0.1000000000000000055511151231257827", 0.1, true}, {"123456789012345678", 123456789012345678, true}, {"1.7976931348623157e308", 1.7976931348623157e308, true}, {"1e309", 0, false},
	{"5e-324", 5e-324, true}, {"0.30000000000000004", 0.30000000000000004, true}, {"16777217", 16777217, true}, {"-Inf", math.Inf(-1), true}, {"1.5f", 0, false}, {"1..5", 0, false}, {"\"2.5\"", 2.5, true}}

var longInts = []struct {
	s  string
	i  int64
	ok bool
}{{"9223372036854775807", 9223372036854775807, true}, {"-9223372036854775808", -9223372036854775808, true}, {"9223372036854775808", 0, false}, {"007", 7, true}, {"+12345678", 12345678, true}, {"0x10", 0, false}, {"1e3", 0, false},
	{"1_0", 0, false}, {"4294967296", 4294967296, true}, {"9007199254740993", 9007199254740993, true}, {"2.0", 0, false}, {"\"10\"", 10, true}}

// C25: what the accessors of an array return, in any order of reads.
func C25_Arrays() {
	kinds := []models.ArrayTypeType{models.ArrayTypeType("int"), models.ArrayTypeType("real"), models.ArrayTypeType("string"), "", "Int"}
	k := sym.Choose("kind", len(kinds))
	what := string(kinds[k]) + " array"
	raw := ""
	var elems []string
	var fs []float64
	var is []int64
	good := true
	switch k {
	case 1: // real numbers
		n := sym.Choose("n", sym.Bound(4, 5)+1)
		if n == 0 {
			n = 1
			list := longReals
			for i := 0; i < 2; i++ {
				e := list[sym.Choose("long"+digit[i], len(list))]
				raw += e.s + " "
				fs = append(fs, e.f)
				good = good && e.ok
			}
		}
		for i := 0; i < n-1; i++ {
			e := reals[sym.Choose("e"+digit[i], len(reals))]
			if i > 0 || sym.Choose("lead", 2) == 1 {
				c := sym.Byte("space" + digit[i])
				sym.Assume(blank(c))
				raw += string([]byte{c})
			}
			raw += e.s
			fs = append(fs, e.f)
			good = good && e.ok
		}
	case 0: // integers
		if sym.Choose("long", 2) == 1 {
			for i := 0; i < 2; i++ {
				e := longInts[sym.Choose("long"+digit[i], len(longInts))]
				raw += e.s + " "
				is = append(is, e.i)
				good = good && e.ok
			}
			break
		}
		raw = text("raw", sym.Bound(3, 4))
		elems, good = tokens(raw)
		for _, e := range elems {
			n, ok := integer(e)
			is = append(is, n)
			good = sym.And(good, ok)
		}
	default:
		if sym.Choose("long", 2) == 1 {
			raw = "the quick brown fox jumps over the lazy dog and " + text("raw", 2) + "supercalifragilisticexpialidocious\twords"
			elems, good = tokens(raw)
			break
		}
		raw = text("raw", sym.Bound(4, 6))
		elems, good = tokens(raw)
	}
	a := &models.ArrayType{Type: kinds[k], RawValue: raw}
	for r := 0; r < sym.Bound(2, 4); r++ {
		switch sym.Choose("read"+digit[r], 3) {
		case 0:
			v, err := a.Int64s()
			if k != 0 {
				sym.Assert(err != nil, what+" read as integers")
				break
			}
			sym.Assert((err == nil) == good, what+": wrong content accepted or right content rejected")
			if err == nil {
				sym.Reach("int")
				sym.Assert(len(v) == len(is), what+": number of elements")
				for i := range is {
					sym.Assert(v[i] == is[i], what+": element")
				}
			}
		case 1:
			v, err := a.Float64s()
			if k != 1 {
				sym.Assert(err != nil, what+" read as reals")
				break
			}
			sym.Assert((err == nil) == good, what+": wrong content accepted or right content rejected")
			if err == nil {
				sym.Reach("real")
				sym.Assert(len(v) == len(fs), what+": number of elements")
				for i := range fs {
					sym.Assert(v[i] == fs[i], what+": element")
				}
			}
		case 2:
			v, err := a.Strings()
			if k != 2 {
				sym.Assert(err != nil, what+" read as strings")
				break
			}
			sym.Assert((err == nil) == good, what+": wrong content accepted or right content rejected")
			if err == nil {
				sym.Reach("string")
				sym.Assert(len(v) == len(elems), what+": number of elements")
				for i := range elems {
					sym.Assert(v[i] == elems[i], what+": element")
				}
			}
		}
	}
}

// C26: the factories of element groups.
func C26_Factories() {
	groups := [][]string{
		{"AnyDistribution", "GaussianDistribution", "PoissonDistribution", "UniformDistribution"},
		{"Aggregate", "Apply", "Constant", "Discretize", "FieldRef", "Lag", "MapValues", "NormContinuous", "NormDiscrete", "TextIndex"},
		{"DecisionTree", "Regression"},
		{"AssociationModel", "BaselineModel", "BayesianNetworkModel", "ClusteringModel", "GaussianProcessModel", "GeneralRegressionModel", "MiningModel", "NaiveBayesModel", "NearestNeighborModel", "NeuralNetwork",
			"RegressionModel", "RuleSetModel", "Scorecard", "SequenceModel", "SupportVectorMachineModel", "TextModel", "TimeSeriesModel", "TreeModel"},
		{"CompoundPredicate", "False", "SimplePredicate", "SimpleSetPredicate", "True"},
		{"InlineTable", "TableLocator"},
	}
	get := []func(string) (interface{}, bool){
		func(s string) (interface{}, bool) { return models.GetContinuousDistributionType(s) },
		func(s string) (interface{}, bool) { return models.GetExpression(s) },
		func(s string) (interface{}, bool) { return models.GetEmbeddedModel(s) },
		func(s string) (interface{}, bool) { return models.GetModelElement(s) },
		func(s string) (interface{}, bool) { return models.GetPredicate(s) },
		func(s string) (interface{}, bool) { return models.GetTable(s) },
	}
	fresh := [][]interface{}{
		{&models.AnyDistribution{}, &models.GaussianDistribution{}, &models.PoissonDistribution{}, &models.UniformDistribution{}},
		{&models.Aggregate{}, &models.Apply{}, &models.Constant{}, &models.Discretize{}, &models.FieldRef{}, &models.Lag{}, &models.MapValues{}, &models.NormContinuous{}, &models.NormDiscrete{}, &models.TextIndex{}},
		{&models.DecisionTree{}, &models.Regression{}},
		{&models.AssociationModel{}, &models.BaselineModel{}, &models.BayesianNetworkModel{}, &models.ClusteringModel{}, &models.GaussianProcessModel{}, &models.GeneralRegressionModel{}, &models.MiningModel{}, &models.NaiveBayesModel{},
			&models.NearestNeighborModel{}, &models.NeuralNetwork{}, &models.RegressionModel{}, &models.RuleSetModel{}, &models.Scorecard{}, &models.SequenceModel{}, &models.SupportVectorMachineModel{}, &models.TextModel{}, &models.TimeSeriesModel{}, &models.TreeModel{}},
		{&models.CompoundPredicate{}, &models.False{}, &models.SimplePredicate{}, &models.SimpleSetPredicate{}, &models.True{}},
		{&models.InlineTable{}, &models.TableLocator{}},
	}
	g := sym.Choose("group", len(groups))
	name := ""
	idx := -1
	switch sym.Choose("name", 3) {
	case 0: // a name of any group
		h := sym.Choose("of", len(groups))
		idx = sym.Choose("member", len(groups[h]))
		name = groups[h][idx]
		if h != g {
			idx = -1
		}
	case 1: // any name
		name = text("name", sym.Bound(26, 30))
		for i, n := range groups[g] {
			if name == n {
				idx = i
			}
		}
	case 2:
		name = []string{"Extension", "TreeModel ", "treeModel", "PMML", "TREEMODEL", "CompoundRule", "Array", ""}[sym.Choose("other", 8)]
	}
	e, ok := get[g](name)
	sym.Assert(ok == (idx >= 0), "a name of another group is known or one of the group is not")
	if idx < 0 {
		sym.Reach("unknown")
		sym.Assert(e == nil, "an element for an unknown name")
		return
	}
	sym.Reach("known")
	what := groups[g][idx]
	sym.Assert(reflect.DeepEqual(e, fresh[g][idx]), "not an empty element of the type of its name: "+what)
	// writing to one element leaves the next one empty
	ext := []models.Extension{{}}
	switch x := e.(type) {
	case *models.Apply:
		x.Function, x.Expressions = "+", []models.Expression{x}
	case *models.Constant:
		x.Value = "1"
	case *models.FieldRef:
		x.Field = "x"
	case *models.MapValues:
		x.OutputColumn = "x"
	case *models.SimplePredicate:
		x.Value = "1"
	case *models.CompoundPredicate:
		x.Predicates = []models.Predicate{x}
	case *models.SimpleSetPredicate:
		x.Field = "x"
	case *models.True:
		x.Extensions = ext
	case *models.False:
		x.Extensions = ext
	case *models.TreeModel:
		x.Node.Score = "1"
	case *models.MiningModel:
		x.Segmentation.Segments = []models.Segment{{}}
	case *models.RegressionModel:
		x.RegressionTables = []models.RegressionTable{{}}
	case *models.InlineTable:
		x.Rows = []models.Row{{}}
	}
	e2, _ := get[g](name)
	sym.Assert(e2 != e, "the same element twice: "+what)
	sym.Assert(reflect.DeepEqual(e2, fresh[g][idx]), "an element that is not fresh: "+what)
}
