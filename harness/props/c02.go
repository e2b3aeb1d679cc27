package props

import (
	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"

	"verif/harness/sym"
)

func init() { Registry["C02"] = C02_CompoundPredicates }

// stv is a symbolic truth value: t and u are exclusive, neither means FALSE.
type stv struct{ t, u bool }

// rowTV gives p_i an arbitrary truth value: the row holds an arbitrary boolean or nothing.
func rowTV(row evaluation.DataRow, i int) stv {
	present := sym.Bool("present" + digit[i])
	val := sym.Bool("value" + digit[i])
	sym.PutIf(row, pname(i), evaluation.NewValue(val), present)
	return stv{sym.And(present, val), !present}
}

var compoundOps = []models.CompoundPredicateOperator{models.CompoundPredicateOperator("and"), models.CompoundPredicateOperator("or"),
	models.CompoundPredicateOperator("xor"), models.CompoundPredicateOperator("surrogate")}

// kleene is the PMML truth table.
func kleene(op int, cs []stv) stv {
	switch op {
	case 0:
		all, anyU, anyF := true, false, false
		for _, c := range cs {
			all = sym.And(all, c.t)
			anyU = sym.Or(anyU, c.u)
			anyF = sym.Or(anyF, sym.And(!c.t, !c.u))
		}
		return stv{all, sym.And(anyU, !anyF)}
	case 1:
		anyT, anyU := false, false
		for _, c := range cs {
			anyT = sym.Or(anyT, c.t)
			anyU = sym.Or(anyU, c.u)
		}
		return stv{anyT, sym.And(anyU, !anyT)}
	case 2:
		par, anyU := false, false
		for _, c := range cs {
			par = par != c.t
			anyU = sym.Or(anyU, c.u)
		}
		return stv{sym.And(par, !anyU), anyU}
	}
	r := stv{false, true}
	for i := len(cs) - 1; i >= 0; i-- {
		c := cs[i]
		r = stv{sym.Or(c.t, sym.And(c.u, r.t)), sym.And(c.u, r.u)}
	}
	return r
}

type c02gen struct {
	row  evaluation.DataRow
	n    int
	desc string
}

// child is a random child: 0 simple, 1 True, 2 False, 3 a nested compound.
func (g *c02gen) child(kind, depth int) (models.Predicate, stv) {
	switch kind {
	case 1:
		g.desc += " True"
		return &models.True{}, stv{true, false}
	case 2:
		g.desc += " False"
		return &models.False{}, stv{false, false}
	case 3:
		op := sym.Choose("nestedop", len(compoundOps))
		forms := [][]int{{0, 0}, {0, 1}, {2, 0}, {0}, {1, 0, 2}}
		f := forms[sym.Choose("form", sym.Bound(3, len(forms)))]
		return g.compound(op, f, depth-1)
	}
	i := g.n
	g.n++
	g.desc += " p" + digit[i]
	return isTrue(i), rowTV(g.row, i)
}

func (g *c02gen) compound(op int, kinds []int, depth int) (models.Predicate, stv) {
	cp := &models.CompoundPredicate{BooleanOperator: compoundOps[op]}
	var cs []stv
	g.desc += " " + string(compoundOps[op]) + "("
	for _, k := range kinds {
		p, v := g.child(k, depth)
		cp.Predicates = append(cp.Predicates, p)
		cs = append(cs, v)
	}
	g.desc += " )"
	return cp, kleene(op, cs)
}

// C02 evaluates every compound predicate within the bound on a row whose fields are arbitrary.
func C02_CompoundPredicates() {
	g := &c02gen{row: evaluation.DataRow{}}
	op := sym.Choose("op", len(compoundOps))
	n := 1 + sym.Choose("children", sym.Bound(3, 4))
	kinds := make([]int, n)
	nested := 0
	for i := range kinds {
		k := 4
		if nested >= 1 || n > 3 || (n > 2 && sym.Bound(0, 1) == 0) {
			k = 3
		}
		kinds[i] = sym.Choose("kind", k)
		if kinds[i] == 3 {
			nested++
		}
	}
	if n == 3 && sym.Bound(0, 1) == 0 && sym.Choose("shape", 2) == 1 {
		kinds[1] = 3
	}
	p, want := g.compound(op, kinds, 2)
	got := evalPred(dict(boolFields(12)...), p, g.row, "compound")
	sym.Reach("compound")
	sym.Assert(sym.And((got == tT) == want.t, (got == tU) == want.u), "compound predicate"+g.desc+" is "+got.String())
}
