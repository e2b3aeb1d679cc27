package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Normal forms over the reals: a term becomes a quotient of polynomials over atoms (variables, and applications of
// functions to normalized arguments). exp of a sum is a product, expm1 is exp-1, and powers with small constant
// integer exponents are products. Two terms that differ only by such laws have the same cross products, which the
// solver then confirms.

type monomial []monoFactor
type monoFactor struct{ atom, exp int }

func (m monomial) key() string {
	var sb strings.Builder
	for _, f := range m {
		sb.WriteString(strconv.Itoa(f.atom))
		sb.WriteByte('^')
		sb.WriteString(strconv.Itoa(f.exp))
		sb.WriteByte(' ')
	}
	return sb.String()
}

type polyTerm struct {
	m monomial
	c *big.Rat
}
type poly map[string]polyTerm

type ratFn struct{ num, den poly }

type realNorm struct {
	atoms map[string]int
	names []string // of the atoms
	memo  map[*Term]ratFn
	ok    bool
}

const maxMonomials = 3000

func constPoly(c *big.Rat) poly {
	p := poly{}
	if c.Sign() != 0 {
		p[""] = polyTerm{nil, c}
	}
	return p
}

func onePoly() poly { return constPoly(big.NewRat(1, 1)) }

func (p poly) isOne() bool {
	t, ok := p[""]
	return ok && len(p) == 1 && t.c.Cmp(big.NewRat(1, 1)) == 0
}

func addPoly(p, q poly, sign int64) poly {
	r := poly{}
	for k, t := range p {
		r[k] = t
	}
	s := big.NewRat(sign, 1)
	for k, t := range q {
		c := new(big.Rat).Mul(t.c, s)
		if o, ok := r[k]; ok {
			c.Add(c, o.c)
		}
		if c.Sign() == 0 {
			delete(r, k)
		} else {
			r[k] = polyTerm{t.m, c}
		}
	}
	return r
}

func mulMono(a, b monomial) monomial {
	r := make(monomial, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i].atom < b[j].atom:
			r = append(r, a[i])
			i++
		case i == len(a) || b[j].atom < a[i].atom:
			r = append(r, b[j])
			j++
		default:
			r = append(r, monoFactor{a[i].atom, a[i].exp + b[j].exp})
			i++
			j++
		}
	}
	return r
}

func (n *realNorm) mul(p, q poly) poly {
	if len(p)*len(q) > maxMonomials {
		n.ok = false
		return poly{}
	}
	r := poly{}
	for _, s := range p {
		for _, t := range q {
			m := mulMono(s.m, t.m)
			k := m.key()
			c := new(big.Rat).Mul(s.c, t.c)
			if o, ok := r[k]; ok {
				c.Add(c, o.c)
			}
			if c.Sign() == 0 {
				delete(r, k)
			} else {
				r[k] = polyTerm{m, c}
			}
		}
	}
	return r
}

func (p poly) sortedKeys() []string {
	ks := make([]string, 0, len(p))
	for k := range p {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (p poly) str() string {
	var sb strings.Builder
	for _, k := range p.sortedKeys() {
		sb.WriteString(p[k].c.RatString() + "*" + k + "+")
	}
	return sb.String()
}

func (r ratFn) key() string { return r.num.str() + "/" + r.den.str() }

func (n *realNorm) atom(key string) ratFn {
	i, ok := n.atoms[key]
	if !ok {
		i = len(n.names)
		n.atoms[key] = i
		n.names = append(n.names, key)
	}
	m := monomial{{i, 1}}
	return ratFn{poly{m.key(): {m, big.NewRat(1, 1)}}, onePoly()}
}

func (n *realNorm) mulRF(a, b ratFn) ratFn { return ratFn{n.mul(a.num, b.num), n.mul(a.den, b.den)} }
func (n *realNorm) addRF(a, b ratFn, sign int64) ratFn {
	if a.den.str() == b.den.str() {
		return ratFn{addPoly(a.num, b.num, sign), a.den}
	}
	return ratFn{addPoly(n.mul(a.num, b.den), n.mul(b.num, a.den), sign), n.mul(a.den, b.den)}
}

func (n *realNorm) pow(a ratFn, k int) ratFn {
	if k < 0 {
		a, k = ratFn{a.den, a.num}, -k
	}
	r := ratFn{onePoly(), onePoly()}
	for ; k > 0; k-- {
		r = n.mulRF(r, a)
	}
	return r
}

func (n *realNorm) rf(x *Term) ratFn {
	if r, ok := n.memo[x]; ok {
		return r
	}
	r := n.rf1(x)
	if len(r.num) > maxMonomials || len(r.den) > maxMonomials {
		n.ok = false
	}
	n.memo[x] = r
	return r
}

func (n *realNorm) rf1(x *Term) ratFn {
	if !n.ok {
		return ratFn{poly{}, onePoly()}
	}
	one := ratFn{onePoly(), onePoly()}
	byID := func() ratFn { return n.atom("t" + strconv.Itoa(x.id)) }
	switch x.op {
	case OConst:
		if x.sort.k != KF64 && x.sort.k != KF32 {
			return byID()
		}
		f := x.f()
		if math.IsNaN(f) || math.IsInf(f, 0) {
			n.ok = false
			return one
		}
		return ratFn{constPoly(new(big.Rat).SetFloat64(f)), onePoly()}
	case OFAdd:
		return n.addRF(n.rf(x.args[0]), n.rf(x.args[1]), 1)
	case OFSub:
		return n.addRF(n.rf(x.args[0]), n.rf(x.args[1]), -1)
	case OFMul:
		return n.mulRF(n.rf(x.args[0]), n.rf(x.args[1]))
	case OFDiv:
		b := n.rf(x.args[1])
		return n.mulRF(n.rf(x.args[0]), ratFn{b.den, b.num})
	case OFNeg:
		return n.addRF(ratFn{poly{}, onePoly()}, n.rf(x.args[0]), -1)
	case OUF:
		switch {
		case x.name == "exp":
			return n.exp(n.rf(x.args[0]))
		case x.name == "expm1":
			return n.addRF(n.exp(n.rf(x.args[0])), one, -1)
		case x.name == "pow" && x.args[1].isConst():
			if k := x.args[1].f(); k == math.Trunc(k) && math.Abs(k) <= 8 {
				return n.pow(n.rf(x.args[0]), int(k))
			}
		}
		key := x.name
		for _, a := range x.args {
			key += "(" + n.rf(a).key() + ")"
		}
		return n.atom(key)
	}
	return byID()
}

// exp of a polynomial is the product of the exponentials of its terms.
func (n *realNorm) exp(a ratFn) ratFn {
	if !a.den.isOne() {
		return n.atom("exp(" + a.key() + ")")
	}
	r := ratFn{onePoly(), onePoly()}
	for _, k := range a.num.sortedKeys() {
		t := a.num[k]
		c, times := new(big.Rat).Abs(t.c), 1
		if c.IsInt() && c.Num().IsInt64() && c.Num().Int64() <= 6 && k != "" {
			times = int(c.Num().Int64())
			c = big.NewRat(1, 1)
		}
		f := n.atom("exp(" + c.RatString() + "*" + k + ")")
		if t.c.Sign() < 0 {
			times = -times
		}
		r = n.mulRF(r, n.pow(f, times))
	}
	return r
}

func (n *realNorm) smt(p poly) string {
	var sb strings.Builder
	sb.WriteString("(+ 0.0")
	for _, k := range p.sortedKeys() {
		t := p[k]
		fmt.Fprintf(&sb, " (* (/ %s.0 %s.0)", strings.Replace(new(big.Int).Abs(t.c.Num()).String(), "-", "", 1), t.c.Denom().String())
		if t.c.Sign() < 0 {
			sb.WriteString(" (- 1.0)")
		}
		for _, f := range t.m {
			for i := 0; i < f.exp; i++ {
				fmt.Fprintf(&sb, " a%d", f.atom)
			}
		}
		sb.WriteString(")")
	}
	sb.WriteString(")")
	return sb.String()
}

// normEqual decides whether two terms are equal by the laws of the normal form (never that they differ).
func (in *Interp) normEqual(a, b *Term) bool {
	n := &realNorm{atoms: map[string]int{}, memo: map[*Term]ratFn{}, ok: true}
	x, y := n.rf(a), n.rf(b)
	if !n.ok {
		return false
	}
	p, q := n.mul(x.num, y.den), n.mul(y.num, x.den)
	if !n.ok || len(x.den) == 0 || len(y.den) == 0 || p.str() != q.str() {
		return false
	}
	s := newSolver("z3", "-in")
	defer func() { in.ex.absorb(s); s.close() }()
	for i := range n.names {
		s.send(fmt.Sprintf("(declare-const a%d Real)", i))
	}
	s.send("(assert (not (= " + n.smt(p) + " " + n.smt(q) + ")))")
	s.send("(set-option :timeout 4000)")
	s.send("(check-sat)")
	s.in.Flush()
	s.queries++
	t0 := time.Now()
	l, err := s.readLine(12 * time.Second)
	s.time += time.Since(t0)
	return err == nil && l == "unsat"
}
