package props

import (
	"reflect"

	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() { Registry["C24"] = C24_Extensions }

func el(name string, attrs string, kids ...*sym.X) *sym.X {
	x := &sym.X{Name: name, Kids: kids}
	key := ""
	cur := ""
	for i := 0; i < len(attrs); i++ {
		switch attrs[i] {
		case '=':
			key, cur = cur, ""
		case ' ':
			x.Attrs = append(x.Attrs, sym.A{Name: key, Val: cur})
			cur = ""
		default:
			cur += attrs[i : i+1]
		}
	}
	if key != "" {
		x.Attrs = append(x.Attrs, sym.A{Name: key, Val: cur})
	}
	return x
}

func chars(s string) *sym.X { return &sym.X{Text: s} }

// baseDoc is a document with every element that has a decoder of its own.
func baseDoc(part int) (*sym.X, func() interface{}) {
	lt := el("LocalTransformations", "", el("DerivedField", "name=d optype=continuous dataType=double displayName=D", el("Value", "value=v"),
		el("Apply", "function=+ defaultValue=1 mapMissingTo=2 invalidValueTreatment=asIs", el("FieldRef", "field=x mapMissingTo=3"), el("Constant", "dataType=double missing=false", chars("2")))),
		el("DerivedField", "name=e", el("MapValues", "outputColumn=o dataType=double defaultValue=1 mapMissingTo=2", el("FieldColumnPair", "field=x column=c"), el("InlineTable", "", el("row", "", el("c", "", chars("1")), el("o", "", chars("2")))))))
	ms := el("MiningSchema", "", el("MiningField", "name=x optype=continuous importance=0.5 outliers=asIs lowValue=1 highValue=2 missingValueReplacement=3 missingValueTreatment=asIs invalidValueTreatment=asIs"), el("MiningField", "name=y usageType=target"))
	simple := el("SimplePredicate", "field=x operator=lessThan value=1")
	compound := el("CompoundPredicate", "booleanOperator=and", simple, el("True", ""), el("SimpleSetPredicate", "field=x booleanOperator=isIn", el("Array", "type=int", chars("1 2"))), el("CompoundPredicate", "booleanOperator=or", el("False", ""), simple))
	node := el("Node", "id=0 score=a recordCount=4 defaultChild=1", el("True", ""), el("ScoreDistribution", "value=a recordCount=1 confidence=0.5 probability=0.25"), el("Node", "id=1 score=b", compound, el("Partition", "")), el("Node", "id=2", el("DecisionTree", ""), simple))
	reg := el("RegressionModel", "functionName=regression isScorable=true normalizationMethod=none targetFieldName=y", ms, el("RegressionTable", "intercept=1 targetCategory=a", el("NumericPredictor", "name=x coefficient=2 exponent=2")), el("Output", "", el("OutputField", "name=p feature=probability rank=1 isMultiValued=0 isFinalResult=true")))
	switch part {
	case 0:
		return el("TreeModel", "functionName=classification missingValuePenalty=0.5 missingValueStrategy=none noTrueChildStrategy=returnLastPrediction isScorable=false splitCharacteristic=binarySplit", ms, lt, el("Output", "", el("OutputField", "name=p")), node), func() interface{} { return &models.TreeModel{} }
	case 1:
		return el("MiningModel", "functionName=regression", ms, el("Targets", "", el("Target", "field=y rescaleFactor=2 rescaleConstant=1 min=0 max=1 castInteger=round")),
			el("ModelVerification", "recordCount=1 fieldCount=1", el("VerificationFields", "", el("VerificationField", "field=x column=x precision=0.1 zeroThreshold=0.1")), el("InlineTable", "", el("row", "", el("x", "", chars("1"))), el("row", "", el("x", "", chars("2"))))),
			el("Segmentation", "multipleModelMethod=sum", el("Segment", "id=1 weight=1", simple, reg), el("Segment", "id=2", el("RegressionModel", ""), el("True", "")))), func() interface{} { return &models.MiningModel{} }
	case 2:
		return el("PMML", "version=4.3", el("Header", "copyright=c", el("Application", "name=a"), el("Timestamp", "")), el("MiningBuildTask", ""),
			el("DataDictionary", "numberOfFields=2", el("DataField", "name=x dataType=double optype=continuous isCyclic=0", el("Interval", "closure=openOpen leftMargin=1 rightMargin=2"), el("Value", "value=1")), el("DataField", "name=y"),
				el("Taxonomy", "name=t", el("ChildParent", "childField=c parentField=p parentLevelField=l isRecursive=no", el("FieldColumnPair", "field=a column=b"), el("InlineTable", "", el("row", "", el("x", "", chars("1"))))), el("ChildParent", "", el("TableLocator", "")))),
			el("TransformationDictionary", "", el("DefineFunction", "name=f optype=continuous dataType=double", el("ParameterField", ""), el("FieldRef", "field=x")), el("DerivedField", "name=g", el("FieldRef", "field=x"))),
			el("TreeModel", "modelName=a", node), reg, el("NeuralNetwork", "")), func() interface{} { return &models.PMML{} }
	}
	return el("Alternate", "", el("GaussianDistribution", "mean=1 variance=2")), func() interface{} { return &models.Alternate{} }
}

// places lists the elements that may be extended: not texts, not rows, whose content is arbitrary.
func places(x *sym.X, r []*sym.X) []*sym.X {
	switch x.Name {
	case "", "row", "Constant", "Array":
		return r
	}
	r = append(r, x)
	for _, k := range x.Kids {
		r = places(k, r)
	}
	return r
}

// letters is an n-letter name.
func letters(name string, n int) string {
	b := make([]byte, n)
	ok := true
	for i := range b {
		c := sym.Byte(name + digit[i])
		ok = sym.And(ok, sym.Or(sym.And(c >= 'a', c <= 'z'), sym.And(c >= 'A', c <= 'Z')))
		b[i] = c
	}
	sym.Assume(ok)
	return string(b)
}

func insert(x *sym.X, at int, e *sym.X) *sym.X {
	kids := []*sym.X{}
	for i, k := range x.Kids {
		if i == at {
			kids = append(kids, e)
		}
		kids = append(kids, k)
	}
	if at >= len(x.Kids) {
		kids = append(kids, e)
	}
	return &sym.X{Name: x.Name, Attrs: x.Attrs, Kids: kids, Text: x.Text}
}

// with is the document where the n-th extensible element got e at the given position.
func with(x *sym.X, n *int, at int, e *sym.X) *sym.X {
	switch x.Name {
	case "", "row", "Constant", "Array":
		return x
	}
	if *n == 0 {
		*n--
		return insert(x, at, e)
	}
	*n--
	r := &sym.X{Name: x.Name, Attrs: x.Attrs, Text: x.Text}
	for _, k := range x.Kids {
		r.Kids = append(r.Kids, with(k, n, at, e))
	}
	return r
}

// content is what an inserted element contains.
func content(name string) []*sym.X {
	switch sym.Choose(name+"content", 5) {
	case 1:
		return []*sym.X{chars(plain(name, 2))}
	case 2:
		return []*sym.X{el("Node", "id=9 recordCount=x", el("True", "")), el("row", "", el("c", "", chars("3"))), el("TreeModel", "missingValuePenalty=x"), el("Constant", "", chars("5"))}
	case 4:
		var r []*sym.X
		for _, n := range []string{"True", "SimplePredicate", "SimpleSetPredicate", "CompoundPredicate", "FieldRef", "Apply", "Value", "Interval", "DataField", "MiningField", "DerivedField", "OutputField", "Target", "Segment", "RegressionModel", "RegressionTable",
			"NumericPredictor", "ScoreDistribution", "Node", "Partition", "Regression", "FieldColumnPair", "InlineTable", "TableLocator", "ParameterField", "VerificationField", "Header", "Application", "GaussianDistribution"} {
			r = append(r, el(n, "value=1"))
		}
		return r
	case 3:
		return []*sym.X{chars("\n"), el("Extension", "value=e", el("Extension", "", el("SimplePredicate", "field=z"))), el("X", "", el("X", "", el("Apply", "")))}
	}
	return nil
}

// C24: extensions and unknown elements change nothing else.
func C24_Extensions() {
	doc, fresh := baseDoc(sym.Choose("document", 4))
	all := places(doc, nil)
	n := sym.Choose("place", len(all))
	at := sym.Choose("at", len(all[n].Kids)+1)
	e := &sym.X{Name: "Extension"}
	what := ""
	switch sym.Choose("inserted", 5) {
	case 0:
		what = "an Extension in "
		if sym.Choose("attributes", 2) == 1 {
			e.Attrs = []sym.A{{"name", printable("name", 2)}, {"value", printable("value", 2)}, {"other", ""}}
		}
		e.Kids = content("e")
	case 1:
		what = "an unknown element in "
		e.Name = letters("name", sym.Choose("letters", 4)+1)
		sym.Assume(!oneOf(e.Name, "row", "Node", "True", "Lag"))
		e.Attrs = []sym.A{{"id", printable("id", 1)}, {"value", "v"}}
		e.Kids = content("u")
	case 2:
		what = "an unknown element in "
		e.Name = []string{"extension", "Extensions", "Nodes", "TREEMODEL", "x-Row", "SimplePredicate2", "Tru.e"}[sym.Choose("name", 7)]
		e.Kids = content("u")
	case 3:
		what = "a comment in "
		e = &sym.X{Name: "#comment", Text: " c "}
	case 4:
		what = "white space in "
		e = chars(" \n\t")
	}
	what += all[n].Name
	a, b := fresh(), fresh()
	sym.Assert(sym.DecodeXML(doc, a) == nil, "the document does not decode")
	m := n
	sym.Assert(sym.DecodeXML(with(doc, &m, at, e), b) == nil, what+" makes decoding fail")
	if e.Name == "Extension" {
		sym.Strip(a, "Extensions")
		sym.Strip(b, "Extensions")
		sym.Reach("extension")
	} else {
		sym.Reach("unknown")
	}
	sym.Assert(reflect.DeepEqual(a, b), what+" changes the decoded document")
}
