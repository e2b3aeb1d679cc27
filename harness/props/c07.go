package props

import (
	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() { Registry["C07"] = C07_TreeOutputs }

var c07labels = []string{"red", "green", "blue", "grey"}

// C07: what a selected node reports.
func C07_TreeOutputs() {
	node := models.Node{ID: "1", Predicate: &models.True{}}
	deep := sym.Choose("depth", 2) == 1
	mdl := &models.TreeModel{FunctionName: models.MiningFunction("classification")}
	hasTarget := sym.Choose("target", 2) == 1
	declared := 0
	var fs []models.DataField
	if hasTarget {
		mdl.MiningSchema = targetSchema
		declared = sym.Choose("declared", 3) // 0: no values, 1: two, 2: all four
		switch declared {
		case 0:
			fs = append(fs, yField())
		case 1:
			fs = append(fs, yField("green", "red"))
		case 2:
			fs = append(fs, yField("red", "green", "blue", "grey"))
		}
	}
	var row evaluation.DataRow = evaluation.DataRow{"z": evaluation.NewValue("q")}
	wrap := func() {
		mdl.Node = node
		if deep {
			mdl.Node = models.Node{ID: "0", Predicate: &models.True{}, Score: "77", RecordCount: 9, ScoreDistributions: []models.ScoreDistribution{{Value: "root", RecordCount: 9}}, Nodes: []models.Node{
				{ID: "2", Predicate: &models.False{}, Score: "78"}, node, {ID: "3", Predicate: &models.True{}, Score: "79"}}}
		}
	}
	mode := sym.Choose("mode", 4)
	n := 0
	var probs, recs []float64
	switch mode {
	case 0: // regression
		mdl.FunctionName = models.MiningFunction("regression")
		x := sym.Float64("score")
		sym.Assume(sym.Finite(x))
		node.Score = sym.FormatF(x)
		if sym.Choose("dist", 2) == 1 {
			node.ScoreDistributions = []models.ScoreDistribution{{Value: "5", RecordCount: 2}, {Value: "6", RecordCount: 1}}
		}
		wrap()
		out, err := build(dict(fs...), mdl).Evaluate(row)
		sym.Assert(err == nil, "regression tree: evaluation failed")
		v, ok := out["score"]
		sym.Assert(ok, "regression tree: no score")
		sym.Reach("regression")
		sym.Assert(v.Float64() == x, "regression tree: wrong score")
		return
	case 1: // no distribution
		s := sym.Choose("label", len(c07labels))
		node.Score = c07labels[s]
		node.RecordCount = models.Number(sym.Choose("rc", 2))
		wrap()
		out, err := build(dict(fs...), mdl).Evaluate(row)
		sym.Assert(err == nil, "score only: evaluation failed")
		if hasTarget {
			y, ok := out["y"]
			sym.Assert(ok && y.String() == node.Score, "score only: the target is not the node's score")
		}
		for i, l := range c07labels {
			v, ok := out["probability("+l+")"]
			want, expect := 0.0, declared == 2 || (declared == 1 && i < 2)
			if i == s {
				want, expect = 1, true
			}
			sym.Assert(ok == expect, "score only: probability reported for a wrong set of labels")
			sym.Assert(!ok || v.Float64() == want, "score only: wrong probability")
		}
		sym.Reach("score")
		return
	case 2: // declared probabilities
		n = 1 + sym.Choose("labels", sym.Bound(3, 4))
		for i := 0; i < n; i++ {
			p := sym.Float64("p" + digit[i])
			sym.Assume(sym.And(p >= 0, p <= 1))
			pp := models.ProbNumber(p)
			probs = append(probs, p)
			node.ScoreDistributions = append(node.ScoreDistributions, models.ScoreDistribution{Value: c07labels[(i*3+1)%4], RecordCount: models.Number(i), Probability: &pp})
		}
	case 3: // record counts, with at most one declared probability
		n = 1 + sym.Choose("labels", sym.Bound(3, 4))
		total := 0.0
		decl := sym.Choose("probability", n+1)
		for i := 0; i < n; i++ {
			r := sym.Float64("r" + digit[i])
			sym.Assume(sym.And(r >= 0, r <= 1e9))
			recs = append(recs, r)
			total += r
			sd := models.ScoreDistribution{Value: c07labels[(i*3+1)%4], RecordCount: models.Number(r)}
			if i == decl {
				p := models.ProbNumber(0.4375)
				sd.Probability = &p
			}
			c := models.ProbNumber(0.9)
			if i == 0 {
				sd.Confidence = &c
			}
			node.ScoreDistributions = append(node.ScoreDistributions, sd)
		}
		sym.Assume(total >= 1)
		for i := 0; i < n; i++ {
			p := recs[i] / total
			if i == decl {
				p = 0.4375
			}
			probs = append(probs, p)
		}
	}
	node.Score = c07labels[1]
	if deep {
		node.RecordCount = 4e9 // the records of the node are not those of its labels
	}
	wrap()
	out, err := build(dict(fs...), mdl).Evaluate(row)
	sym.Assert(err == nil, "distribution: evaluation failed")
	var got []float64
	for i, sd := range node.ScoreDistributions {
		v, ok := out["probability("+sd.Value+")"]
		sym.Assert(ok, "distribution: a label has no probability")
		sym.AssertClose(v.Float64(), probs[i], "distribution: wrong probability")
		got = append(got, v.Float64())
	}
	extra := 0
	for _, l := range c07labels {
		if _, ok := out["probability("+l+")"]; ok {
			extra++
		}
	}
	sym.Assert(extra == n, "distribution: probability of a label outside the distribution")
	if hasTarget {
		y, ok := out["y"]
		sym.Assert(ok, "distribution: no target")
		best := -1
		for i, sd := range node.ScoreDistributions {
			if y.String() == sd.Value {
				best = i
			}
		}
		sym.Assert(best >= 0, "distribution: the target is not a label of the distribution")
		for i := range got {
			if i < best {
				sym.Assert(got[i] < got[best], "distribution: an earlier label is at least as probable as the target")
			} else if i > best {
				sym.Assert(got[i] <= got[best], "distribution: a later label is more probable than the target")
			}
		}
		sym.Reach("best")
	}
}
