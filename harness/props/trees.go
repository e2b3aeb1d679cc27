package props

import (
	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

// tnode is a node of a generated tree: its index, its predicate's truth value and its children.
type tnode struct {
	i    int
	pred stv
	id   string
	def  int // index in kids of the default child, -1 for none
	kids []*tnode
	// score distribution (labels are indices into labels), record counts
	probs []float64
	recs  []float64
	rec   float64
}

// tree is a generated tree with the row that gives its predicates their truth values.
type tree struct {
	row   evaluation.DataRow
	nodes []*tnode
	root  *tnode
	desc  string
}

// shape chooses an ordered tree of at most max nodes, at most width children per node and at most depth levels.
func (tr *tree) shape(budget *int, width, depth int) *tnode {
	n := &tnode{i: len(tr.nodes), def: -1}
	tr.nodes = append(tr.nodes, n)
	*budget--
	if depth <= 1 {
		return n
	}
	max := width
	if *budget < max {
		max = *budget
	}
	// the children are reserved first so that the budget is split in every way
	k := sym.Choose("kids"+digit[n.i], max+1)
	*budget -= k
	for j := 0; j < k; j++ {
		*budget++
		n.kids = append(n.kids, tr.shape(budget, width, depth-1))
	}
	return n
}

// newTree generates a tree whose node predicates have arbitrary truth values. Nodes are named by index.
func newTree(max, width, depth int) *tree {
	tr := &tree{row: evaluation.DataRow{}}
	b := max
	tr.root = tr.shape(&b, width, depth)
	for _, n := range tr.nodes {
		n.pred = rowTV(tr.row, n.i)
		n.id = "n" + digit[n.i]
	}
	tr.desc = tr.text(tr.root)
	return tr
}

func (tr *tree) text(n *tnode) string {
	s := digit[n.i]
	if len(n.kids) > 0 {
		s += "("
		for j, k := range n.kids {
			if j > 0 {
				s += " "
			}
			s += tr.text(k)
		}
		s += ")"
	}
	return s
}

// node is the model of a generated node; content fills in what it scores.
func (n *tnode) model(content func(*tnode, *models.Node)) models.Node {
	m := models.Node{ID: n.id, Predicate: isTrue(n.i)}
	if n.def >= 0 {
		m.DefaultChild = n.kids[n.def].id
	}
	content(n, &m)
	for _, k := range n.kids {
		m.Nodes = append(m.Nodes, k.model(content))
	}
	return m
}

// contents: unique scores
func regressionScore(n *tnode, m *models.Node) { m.Score = "10" + digit[n.i] }
func labelScore(n *tnode, m *models.Node) {
	p := models.ProbNumber(1)
	m.ScoreDistributions = []models.ScoreDistribution{{Value: "L" + digit[n.i], RecordCount: 1, Probability: &p}}
}

var targetSchema = models.MiningSchema{MiningFields: []models.MiningField{{Name: "y", UsageType: models.FieldUsageType("target")}}}

func yField(labels ...string) models.DataField {
	f := models.DataField{Name: "y", DataType: models.DataType("string"), OpType: models.OpType("categorical")}
	for _, l := range labels {
		f.Values = append(f.Values, models.Value{Value: l})
	}
	return f
}

// oracle result: the node selected, or none.
type sel struct {
	n    *tnode
	none bool
}

var noTrue = []models.NoTrueChildStrategy{"", models.NoTrueChildStrategy("returnLastPrediction"), models.NoTrueChildStrategy("returnNullPrediction")}

// selectNode compares the node the model selects (its unique score) with the expected one.
func (tr *tree) selectNode(out evaluation.DataRow, err error, regression bool, want *tnode, what string) {
	if err != nil {
		sym.Fail(what + ": evaluation failed")
	}
	if want == nil {
		sym.Reach("none")
		sym.Assert(len(out) == 0, what+": a prediction where none is expected")
		return
	}
	sym.Reach("prediction")
	if regression {
		v, ok := out["score"]
		sym.Assert(ok, what+": no prediction where one is expected")
		sym.Assert(v.Float64() == float64(100+want.i) || v.Float64() == float64(1000+want.i), what+": not the score of the expected node")
		return
	}
	v, ok := out["y"]
	sym.Assert(ok, what+": no prediction where one is expected")
	sym.Assert(v.String() == "L"+digit[want.i], what+": not the label of the expected node")
	_, ok = out["probability(L"+digit[want.i]+")"]
	sym.Assert(ok, what+": no probability for the label of the expected node")
}

// the kinds of tree model: regression and classification
func (tr *tree) build(regression bool, strategy models.MissingValueStrategy, nt models.NoTrueChildStrategy, penalty models.ProbNumber) evaluation.Model {
	mdl := &models.TreeModel{FunctionName: models.MiningFunction("classification"), MissingValueStrategy: strategy, NoTrueChildStrategy: nt, MissingValuePenalty: penalty,
		MiningSchema: targetSchema, Node: tr.root.model(labelScore)}
	fs := append(boolFields(len(tr.nodes)), yField())
	if regression {
		mdl.FunctionName = models.MiningFunction("regression")
		mdl.Node = tr.root.model(regressionScore)
	}
	return build(dict(fs...), mdl)
}

// finish is the node itself, or none when it has children and noTrueChildStrategy is returnNullPrediction.
func finish(n *tnode, nt models.NoTrueChildStrategy) *tnode {
	if len(n.kids) > 0 && nt == models.NoTrueChildStrategy("returnNullPrediction") {
		return nil
	}
	return n
}

func init() {
	Registry["C03"] = C03_DefaultTraversal
	Registry["C04"] = C04_StopStrategies
}

// C03: default traversal.
func C03_DefaultTraversal() {
	tr := newTree(sym.Bound(6, 8), 4, 5)
	regression := sym.Choose("function", 2) == 0
	nt := noTrue[sym.Choose("noTrueChild", len(noTrue))]
	strategy := []models.MissingValueStrategy{"", models.MissingValueStrategy("none")}[sym.Choose("strategy", 2)]
	m := tr.build(regression, strategy, nt, 0)
	out, err := m.Evaluate(tr.row)
	var want *tnode
	if tr.root.pred.t {
		want = tr.root
		for {
			var next *tnode
			for _, k := range want.kids {
				if k.pred.t {
					next = k
					break
				}
			}
			if next == nil {
				break
			}
			want = next
		}
		want = finish(want, nt)
	}
	tr.selectNode(out, err, regression, want, "tree "+tr.desc+" noTrueChildStrategy="+string(nt))
}

// C04: lastPrediction and nullPrediction.
func C04_StopStrategies() {
	tr := newTree(sym.Bound(6, 8), 4, 5)
	regression := sym.Choose("function", 2) == 0
	nt := noTrue[sym.Choose("noTrueChild", len(noTrue))]
	strategy := []models.MissingValueStrategy{models.MissingValueStrategy("lastPrediction"), models.MissingValueStrategy("nullPrediction")}[sym.Choose("strategy", 2)]
	m := tr.build(regression, strategy, nt, 0)
	out, err := m.Evaluate(tr.row)
	var want *tnode
	if tr.root.pred.t {
		cur := tr.root
	walk:
		for {
			for _, k := range cur.kids {
				if k.pred.t {
					cur = k
					continue walk
				}
				if k.pred.u {
					if strategy == models.MissingValueStrategy("lastPrediction") {
						want = cur
					}
					break walk
				}
			}
			want = finish(cur, nt)
			break
		}
	}
	tr.selectNode(out, err, regression, want, string(strategy)+" tree "+tr.desc+" noTrueChildStrategy="+string(nt))
}
