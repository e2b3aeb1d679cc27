package props

import (
	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

const testdata = "/repo/evaluation/testdata/"

var testFiles = []string{"tree/simple_1.0.xml", "tree/simple_1.1.xml", "tree/simple_1.2.xml", "tree/simple_1.3.xml", "tree/simple_1.4.xml", "tree/simple_1.5.xml", "tree/simple_1.6.xml",
	"logreg/logreg_pca_1.0.xml", "xgboost/boston_xgb_regressor.xml", "xgboost/xgb_preprocessed_regressor.xml", "xgboost/xgboost-fraud.xml", "xgboost/xgboost.xml", "perf/cash_out_fraud_0.1.0.xml"}

func init() { Registry["V00"] = V00_TestData }

// V00 validates the encoding: the repository's own test models are decoded, compiled and verified, and every
// verification row is evaluated, symbolically and natively, with equal results.
func V00_TestData() {
	f := testFiles[sym.Choose("file", len(testFiles))]
	var doc models.PMML
	err := sym.DecodeText(sym.ReadFile(testdata+f), &doc)
	sym.Assert(err == nil, "decode "+f)
	m, err := evaluation.NewModel(&doc.DataDictionary, &doc.TransformationDictionary, doc.Models[0])
	sym.Assert(err == nil, "compile "+f)
	err = m.Verify()
	sym.Observe("verify", err)
	sym.Assert(err == nil, "verify "+f)
	var mv *models.ModelVerification
	switch x := doc.Models[0].(type) {
	case *models.TreeModel:
		mv = x.ModelVerification
	case *models.MiningModel:
		mv = x.ModelVerification
	case *models.RegressionModel:
		mv = x.ModelVerification
	}
	if mv == nil {
		return
	}
	for _, r := range mv.InlineTable.Rows {
		row := evaluation.DataRow{}
		for k, v := range r {
			row[k] = evaluation.NewValue(v)
		}
		out, err := m.Evaluate(row)
		sym.Observe("err", err)
		for _, vf := range mv.VerificationFields.Fields {
			if v, ok := out[string(vf.Field)]; ok {
				sym.Observe(string(vf.Field), v.Float64())
			}
		}
	}
}
