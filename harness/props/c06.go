package props

import (
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() { Registry["C06"] = C06_CombineChildren }

var c06labels = []string{"A", "B", "C"}

// dist is what a node scores: per label whether it occurs, its probability and its record count.
type dist struct {
	has  [3]bool
	prob [3]float64
	rec  [3]float64
}

var primes = []float64{2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89}

// own is the distribution of a node itself.
func (n *tnode) own() *dist {
	d := &dist{}
	total := 0.0
	for _, r := range n.recs {
		if r != 0 {
			total += r
		}
	}
	for l, r := range n.recs {
		if r != 0 {
			d.has[l] = true
			d.rec[l] = r
			d.prob[l] = r / total
			if n.probs != nil {
				d.prob[l] = n.probs[l]
			}
		}
	}
	return d
}

func labelCounts(n *tnode, m *models.Node) {
	m.RecordCount = models.Number(n.rec)
	for l, r := range n.recs {
		if r != 0 {
			sd := models.ScoreDistribution{Value: c06labels[l], RecordCount: models.Number(r)}
			if n.probs != nil {
				p := models.ProbNumber(n.probs[l])
				sd.Probability = &p
			}
			m.ScoreDistributions = append(m.ScoreDistributions, sd)
		}
	}
}

// combine is the expected score of an entered node, nil for no prediction.
func combine(n *tnode, weighted bool, nt models.NoTrueChildStrategy) *dist {
	unknown := false
	var nonFalse []*tnode
	for _, k := range n.kids {
		if k.pred.t {
			if !unknown {
				return combine(k, weighted, nt)
			}
			nonFalse = append(nonFalse, k)
		} else if k.pred.u {
			unknown = true
			nonFalse = append(nonFalse, k)
		}
	}
	if !unknown {
		if finish(n, nt) == nil {
			return nil
		}
		return n.own()
	}
	d := &dist{}
	total := 0.0
	scored := false
	for _, k := range nonFalse {
		s := combine(k, weighted, nt)
		if s == nil {
			continue
		}
		scored = true
		if weighted {
			total += k.rec
		}
		for l := range c06labels {
			if !s.has[l] {
				continue
			}
			d.has[l] = true
			d.rec[l] += s.rec[l]
			if weighted {
				d.prob[l] += s.prob[l] * k.rec
			} else {
				total += s.rec[l]
			}
		}
	}
	if !scored {
		return nil
	}
	for l := range c06labels {
		if weighted {
			d.prob[l] = d.prob[l] / total
		} else {
			d.prob[l] = d.rec[l] / total
		}
	}
	return d
}

// C06: weightedConfidence and aggregateNodes.
func C06_CombineChildren() {
	symbolic := sym.Choose("counts", 3) // 0, 1: fixed generic counts; 2: arbitrary record counts on small trees
	var tr *tree
	nt := noTrue[0]
	if symbolic == 2 {
		tr = newTree(sym.Bound(4, 5), 3, 3)
	} else {
		tr = newTree(sym.Bound(5, 6), 4, 4)
		nt = noTrue[sym.Choose("noTrueChild", len(noTrue))]
	}
	weighted := sym.Choose("strategy", 2) == 0
	for _, n := range tr.nodes {
		n.recs = []float64{0, 0, 0}
		switch symbolic {
		case 0, 1:
			n.rec = primes[2*n.i+3]
			n.recs[0] = primes[2*n.i]
			if n.i%3 != 2 {
				n.recs[1] = primes[2*n.i+1]
			} else {
				n.recs[2] = primes[n.i]
			}
			if symbolic == 1 {
				n.rec += 0.25 // record counts may be weighted
				n.recs[0] += 0.5
				n.probs = []float64{0.5 + 0.03125*float64(n.i), 0.25, 0.125}
			}
		case 2:
			if n != tr.root {
				w := sym.Float64("rec" + digit[n.i])
				sym.Assume(sym.And(w >= 1, w <= 1e6))
				n.rec = w
			}
			if weighted {
				p := sym.Float64("prob" + digit[n.i])
				sym.Assume(sym.And(p >= 0, p <= 1))
				n.recs[n.i%2] = 1
				n.recs[0] = 1
				n.recs[1] = 0
				n.probs = []float64{p, 0, 0}
			} else {
				c := sym.Float64("count" + digit[n.i])
				sym.Assume(sym.And(c >= 1, c <= 1e6))
				if n.i%2 == 0 {
					n.recs = []float64{c, 0, 0}
				} else {
					n.recs = []float64{0, c, 0}
				}
			}
		}
	}
	switch sym.Choose("ids", 3) {
	case 1:
		for _, n := range tr.nodes {
			n.id = ""
		}
	case 2:
		for _, n := range tr.nodes {
			n.id = "same"
		}
	}
	mdl := &models.TreeModel{FunctionName: models.MiningFunction("classification"), MissingValueStrategy: models.MissingValueStrategy("weightedConfidence"), NoTrueChildStrategy: nt,
		MiningSchema: targetSchema, Node: tr.root.model(labelCounts)}
	if !weighted {
		mdl.MissingValueStrategy = models.MissingValueStrategy("aggregateNodes")
	}
	m := build(dict(append(boolFields(len(tr.nodes)), yField())...), mdl)
	out, err := m.Evaluate(tr.row)
	what := string(mdl.MissingValueStrategy) + " tree " + tr.desc + " noTrueChildStrategy=" + string(nt)
	if err != nil {
		sym.Fail(what + ": evaluation failed")
	}
	var want *dist
	if tr.root.pred.t {
		want = combine(tr.root, weighted, nt)
	}
	if want == nil {
		sym.Reach("none")
		sym.Assert(len(out) == 0, what+": a prediction where none is expected")
		return
	}
	sym.Reach("prediction")
	for l, name := range c06labels {
		v, ok := out["probability("+name+")"]
		sym.Assert(ok == want.has[l], what+": wrong set of labels")
		if ok {
			sym.AssertClose(v.Float64(), want.prob[l], what+": probability of "+name)
		}
	}
}
