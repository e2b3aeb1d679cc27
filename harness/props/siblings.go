package props

import (
	"reflect"

	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

// sibling is a repeated child: an element with one or two of the variants, and the last such child of what it decodes to.
type sibling struct {
	parent   string
	variants []*sym.X
	make     func() (interface{}, func() interface{})
}

func siblings(tree bool) []sibling {
	ext := []*sym.X{el("Extension", "name=n value=v extender=e", chars("text"), el("a", "")), el("Extension", ""), el("Extension", "value=w")}
	simple := el("SimplePredicate", "field=f operator=equal value=1")
	array := el("Array", "n=2 type=int", chars("1 2"))
	set := el("SimpleSetPredicate", "field=f booleanOperator=isIn", array)
	preds := []*sym.X{simple, el("SimplePredicate", "field=g operator=isMissing"), set, el("SimpleSetPredicate", "booleanOperator=isNotIn field=g", el("Array", "type=real")),
		el("CompoundPredicate", "booleanOperator=and", simple, el("True", "")), el("CompoundPredicate", "booleanOperator=or"), el("True", "")}
	dists := []*sym.X{el("ScoreDistribution", "value=a recordCount=4 confidence=0.5 probability=0.25"), el("ScoreDistribution", "value=b recordCount=3"), el("ScoreDistribution", "probability=0.5")}
	nodes := []*sym.X{el("Node", "id=1 score=a recordCount=7 defaultChild=2", simple, dists[0], el("Node", "id=2 score=b", el("True", ""))),
		el("Node", "", el("True", "")), el("Node", "score=c", dists[1], el("False", ""))}
	if tree {
		return []sibling{
			{"Node", nodes, func() (interface{}, func() interface{}) {
				x := &models.Node{}
				return x, func() interface{} { return x.Nodes[len(x.Nodes)-1] }
			}},
			{"Node", dists, func() (interface{}, func() interface{}) {
				x := &models.Node{}
				return x, func() interface{} { return x.ScoreDistributions[len(x.ScoreDistributions)-1] }
			}},
			{"Node", ext, func() (interface{}, func() interface{}) {
				x := &models.Node{}
				return x, func() interface{} { return x.Extensions[len(x.Extensions)-1] }
			}},
			{"CompoundPredicate", preds, func() (interface{}, func() interface{}) {
				x := &models.CompoundPredicate{}
				return x, func() interface{} { return x.Predicates[len(x.Predicates)-1] }
			}},
			{"MiningSchema", []*sym.X{el("MiningField", "name=x optype=continuous importance=0.5 outliers=asIs lowValue=1 highValue=2 missingValueReplacement=3 missingValueTreatment=asIs invalidValueTreatment=asIs usageType=target"),
				el("MiningField", "name=y"), el("MiningField", "missingValueReplacement=")}, func() (interface{}, func() interface{}) {
				x := &models.MiningSchema{}
				return x, func() interface{} { return x.MiningFields[len(x.MiningFields)-1] }
			}},
			{"Targets", []*sym.X{el("Target", "field=y rescaleFactor=2 rescaleConstant=1 min=0 max=1 castInteger=round"), el("Target", "field=z"), el("Target", "rescaleConstant=3")}, func() (interface{}, func() interface{}) {
				x := &models.Targets{}
				return x, func() interface{} { return x.Targets[len(x.Targets)-1] }
			}},
			{"Output", []*sym.X{el("OutputField", "name=p feature=probability value=a rank=1 dataType=double optype=continuous"), el("OutputField", "name=q"), el("OutputField", "value=b")}, func() (interface{}, func() interface{}) {
				x := &models.Output{}
				return x, func() interface{} { return x.Fields[len(x.Fields)-1] }
			}},
		}
	}
	ref := el("FieldRef", "field=x mapMissingTo=1")
	row := el("row", "", el("c", "", chars("1")), el("o", "", chars("2")))
	table := el("InlineTable", "", row, el("row", "", el("c", "", chars("3"))))
	pair := el("FieldColumnPair", "field=x column=c")
	mapping := el("MapValues", "outputColumn=o dataType=double defaultValue=1 mapMissingTo=2", pair, table)
	apply := el("Apply", "function=if defaultValue=1 mapMissingTo=2 invalidValueTreatment=asIs", ref, el("Constant", "dataType=double", chars("2")))
	exprs := []*sym.X{ref, el("FieldRef", "field=y"), el("Constant", "dataType=double", chars("2")), el("Constant", "", chars("3")), apply, el("Apply", "function=sum"),
		mapping, el("MapValues", "outputColumn=p")}
	reg := el("RegressionModel", "functionName=regression normalizationMethod=exp modelName=m", el("MiningSchema", "", el("MiningField", "name=x")),
		el("RegressionTable", "intercept=1 targetCategory=a", el("NumericPredictor", "name=x coefficient=2 exponent=2")), el("Output", "", el("OutputField", "name=p")))
	mdls := []*sym.X{reg, el("RegressionModel", "functionName=classification"), el("TreeModel", "functionName=regression missingValuePenalty=0.5 modelName=t", nodes[0]), el("TreeModel", "", nodes[1]),
		el("MiningModel", "functionName=regression", el("Segmentation", "multipleModelMethod=sum", el("Segment", "id=1", simple, reg)))}
	values := []*sym.X{el("Value", "value=v displayValue=d property=missing"), el("Value", "value=w"), el("Value", "")}
	return []sibling{
		{"Apply", exprs, func() (interface{}, func() interface{}) {
			x := &models.Apply{}
			return x, func() interface{} { return x.Expressions[len(x.Expressions)-1] }
		}},
		{"InlineTable", []*sym.X{row, el("row", "", el("c", "", chars("3"))), el("row", "")}, func() (interface{}, func() interface{}) {
			x := &models.InlineTable{}
			return x, func() interface{} { return x.Rows[len(x.Rows)-1] }
		}},
		{"MapValues", []*sym.X{pair, el("FieldColumnPair", "field=y"), el("FieldColumnPair", "")}, func() (interface{}, func() interface{}) {
			x := &models.MapValues{}
			return x, func() interface{} { return x.FieldColumnPairs[len(x.FieldColumnPairs)-1] }
		}},
		{"MapValues", []*sym.X{table, el("InlineTable", "")}, func() (interface{}, func() interface{}) {
			x := &models.MapValues{}
			return x, func() interface{} { return x.InlineTables[len(x.InlineTables)-1] }
		}},
		{"ChildParent", []*sym.X{pair, el("FieldColumnPair", "field=y"), el("FieldColumnPair", "")}, func() (interface{}, func() interface{}) {
			x := &models.ChildParent{}
			return x, func() interface{} { return x.FieldColumnPairs[len(x.FieldColumnPairs)-1] }
		}},
		{"DerivedField", values, func() (interface{}, func() interface{}) {
			x := &models.DerivedField{}
			return x, func() interface{} { return x.Values[len(x.Values)-1] }
		}},
		{"DefineFunction", []*sym.X{el("ParameterField", "name=a dataType=double optype=continuous"), el("ParameterField", "name=b"), el("ParameterField", "")}, func() (interface{}, func() interface{}) {
			x := &models.DefineFunction{}
			return x, func() interface{} { return x.ParameterFields[len(x.ParameterFields)-1] }
		}},
		{"LocalTransformations", []*sym.X{el("DerivedField", "name=d dataType=double optype=continuous displayName=D", values[0], apply), el("DerivedField", "name=e", mapping), el("DerivedField", "", exprs[1])}, func() (interface{}, func() interface{}) {
			x := &models.LocalTransformations{}
			return x, func() interface{} { return x.DerivedFields[len(x.DerivedFields)-1] }
		}},
		{"TransformationDictionary", []*sym.X{el("DerivedField", "name=d dataType=double optype=continuous displayName=D", values[0], apply), el("DerivedField", "name=e", mapping), el("DerivedField", "", exprs[1])}, func() (interface{}, func() interface{}) {
			x := &models.TransformationDictionary{}
			return x, func() interface{} { return x.DerivedFields[len(x.DerivedFields)-1] }
		}},
		{"DataDictionary", []*sym.X{el("DataField", "name=x dataType=double optype=continuous isCyclic=1 taxonomy=t displayName=d", el("Interval", "closure=openOpen leftMargin=1 rightMargin=2"), values[0]), el("DataField", "name=y", values[1]), el("DataField", "")}, func() (interface{}, func() interface{}) {
			x := &models.DataDictionary{}
			return x, func() interface{} { return x.DataFields[len(x.DataFields)-1] }
		}},
		{"DataField", values, func() (interface{}, func() interface{}) {
			x := &models.DataField{}
			return x, func() interface{} { return x.Values[len(x.Values)-1] }
		}},
		{"Segmentation", []*sym.X{el("Segment", "id=1", simple, reg), el("Segment", "", mdls[3]), el("Segment", "id=2", set, mdls[1])}, func() (interface{}, func() interface{}) {
			x := &models.Segmentation{}
			return x, func() interface{} { return x.Segments[len(x.Segments)-1] }
		}},
		{"Segment", mdls, func() (interface{}, func() interface{}) {
			x := &models.Segment{}
			return x, func() interface{} { return x.Models[len(x.Models)-1] }
		}},
		{"Segment", preds, func() (interface{}, func() interface{}) {
			x := &models.Segment{}
			return x, func() interface{} { return x.Predicates[len(x.Predicates)-1] }
		}},
		{"PMML", mdls, func() (interface{}, func() interface{}) {
			x := &models.PMML{}
			return x, func() interface{} { return x.Models[len(x.Models)-1] }
		}},
		{"RegressionModel", []*sym.X{el("RegressionTable", "intercept=1 targetCategory=a", el("NumericPredictor", "name=x coefficient=2 exponent=2")), el("RegressionTable", ""), el("RegressionTable", "targetCategory=b", el("NumericPredictor", "name=y"))}, func() (interface{}, func() interface{}) {
			x := &models.RegressionModel{}
			return x, func() interface{} { return x.RegressionTables[len(x.RegressionTables)-1] }
		}},
		{"RegressionTable", []*sym.X{el("NumericPredictor", "name=x coefficient=2 exponent=2"), el("NumericPredictor", "name=y"), el("NumericPredictor", "coefficient=3")}, func() (interface{}, func() interface{}) {
			x := &models.RegressionTable{}
			return x, func() interface{} { return x.NumericPredictor[len(x.NumericPredictor)-1] }
		}},
		{"VerificationFields", []*sym.X{el("VerificationField", "field=x column=data:x precision=0.1 zeroThreshold=0.2"), el("VerificationField", "field=y column=data:y"), el("VerificationField", "")}, func() (interface{}, func() interface{}) {
			x := &models.VerificationFields{}
			return x, func() interface{} { return x.Fields[len(x.Fields)-1] }
		}},
	}
}

// siblingsOf decodes an element with two children: the second is what it is on its own, and both are kept apart.
func siblingsOf(tree bool) {
	all := siblings(tree)
	s := all[sym.Choose("parent", len(all))]
	i, j := sym.Choose("first", len(s.variants)), sym.Choose("second", len(s.variants))
	a, b := s.variants[i], s.variants[j]
	what := s.parent + " children " + a.Name + ", " + b.Name
	one, last1 := s.make()
	sym.Assert(sym.DecodeXML(&sym.X{Name: s.parent, Kids: []*sym.X{b}}, one) == nil, what+": the second alone does not decode")
	alone := last1()
	// the same again, with the other decoded in between
	fst, lastF := s.make()
	sym.Assert(sym.DecodeXML(&sym.X{Name: s.parent, Kids: []*sym.X{a}}, fst) == nil, what+": the first alone does not decode")
	first := lastF()
	two, last2 := s.make()
	sym.Assert(sym.DecodeXML(&sym.X{Name: s.parent, Kids: []*sym.X{a, b}}, two) == nil, what+": do not decode")
	sym.Assert(reflect.DeepEqual(last2(), alone), what+": the second depends on the first")
	sym.Assert(reflect.DeepEqual(last1(), alone), what+": an earlier document changed")
	three, last3 := s.make()
	sym.Assert(sym.DecodeXML(&sym.X{Name: s.parent, Kids: []*sym.X{b, a}}, three) == nil, what+": do not decode in reverse")
	sym.Assert(reflect.DeepEqual(last3(), first), what+": the first depends on the second")
	sym.Reach("siblings")
}
