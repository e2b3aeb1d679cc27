package props

import (
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() { Registry["C05"] = C05_DefaultChild }

// two labels per node: L<i> with probability 3/4 and M with 1/4
func twoLabels(n *tnode, m *models.Node) {
	p, q := models.ProbNumber(0.75), models.ProbNumber(0.25)
	m.ScoreDistributions = []models.ScoreDistribution{{Value: "L" + digit[n.i], RecordCount: 3, Probability: &p}, {Value: "M", RecordCount: 1, Probability: &q}}
}

// C05: defaultChild with penalty.
func C05_DefaultChild() {
	tr := newTree(sym.Bound(5, 6), 3, 4)
	for _, n := range tr.nodes {
		if len(n.kids) > 0 {
			n.def = sym.Choose("default"+digit[n.i], len(n.kids)+1) - 1
		}
	}
	ids := sym.Choose("ids", 3) // 1: the nodes have no ids, so no default child is named; 2: ids that begin like others
	if ids == 2 {
		for _, n := range tr.nodes {
			n.id = "1111111111"[n.i:]
		}
	}
	if ids == 1 {
		for _, n := range tr.nodes {
			sym.Assume(n.def < 1)
			n.def = -1
			n.id = ""
		}
	}
	regression := sym.Choose("function", 2) == 0
	nt := noTrue[sym.Choose("noTrueChild", len(noTrue))]
	penalty := 1.0
	mdl := &models.TreeModel{FunctionName: models.MiningFunction("classification"), MissingValueStrategy: models.MissingValueStrategy("defaultChild"), NoTrueChildStrategy: nt,
		MiningSchema: targetSchema, Node: tr.root.model(twoLabels)}
	if regression {
		mdl.FunctionName = models.MiningFunction("regression")
		mdl.Node = tr.root.model(regressionScore)
	}
	two := true
	switch sym.Choose("penalty", 3) {
	case 1:
		// an arbitrary penalty; one label per node, so that no label comparison depends on it
		penalty = sym.Float64("penalty")
		sym.Assume(sym.And(penalty > 0, penalty <= 1))
		mdl.MissingValuePenalty = models.ProbNumber(penalty)
		if !regression {
			mdl.Node = tr.root.model(labelScore)
			two = false
		}
	case 2:
		penalty = 0.375
		mdl.MissingValuePenalty = models.ProbNumber(penalty)
	}
	if ids == 2 {
		sym.Assume(regression && nt == noTrue[0] && mdl.MissingValuePenalty == 0)
	}
	m := build(dict(append(boolFields(len(tr.nodes)), yField())...), mdl)
	out, err := m.Evaluate(tr.row)

	var want *tnode
	factor := 1.0
	steps := 0
	if tr.root.pred.t {
		want = tr.root
	walk:
		for len(want.kids) > 0 {
			for _, k := range want.kids {
				if k.pred.t {
					want = k
					continue walk
				}
				if k.pred.u {
					if want.def < 0 {
						want = nil
						break walk
					}
					want = want.kids[want.def]
					steps++
					continue walk
				}
			}
			want = finish(want, nt)
			break
		}
	}
	what := "defaultChild tree " + tr.desc + " noTrueChildStrategy=" + string(nt)
	tr.selectNode(out, err, regression, want, what)
	if want == nil || regression {
		return
	}
	for i := 0; i < steps; i++ {
		factor *= penalty
	}
	sym.Reach("penalty")
	if !two {
		sym.AssertClose(out["probability(L"+digit[want.i]+")"].Float64(), factor, what+": probability")
		return
	}
	sym.AssertClose(out["probability(L"+digit[want.i]+")"].Float64(), 0.75*factor, what+": first probability")
	sym.AssertClose(out["probability(M)"].Float64(), 0.25*factor, what+": second probability")
}
