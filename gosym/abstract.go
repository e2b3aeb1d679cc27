package main

import "math"

// Abstraction of expensive floating-point operations: before the exact query, the operations are replaced by
// fresh variables constrained by lemmas that hold for IEEE rounding (monotonicity, signs). A refutation of
// the abstracted query refutes the exact one; any other answer is discarded.

type absEnt struct {
	v, a, b *Term
	op      Op
}

type abstraction struct {
	in   *Interp
	memo map[*Term]*Term
	ents []absEnt
}

func isHardOp(op Op, args []*Term) bool {
	switch op {
	case OFMul, OFAdd, OFSub, OFDiv:
		return !args[0].isConst() || !args[1].isConst()
	case OFSqrt, OFtoS, OFtoU, OStoF, OUtoF:
		return true
	case OMul, OUDiv, OSDiv, OURem, OSRem:
		return !args[0].isConst() && !args[1].isConst()
	}
	return false
}

func (ab *abstraction) term(x *Term) *Term {
	if !x.hard {
		return x
	}
	if y, ok := ab.memo[x]; ok {
		return y
	}
	as := make([]*Term, len(x.args))
	for i, a := range x.args {
		as[i] = ab.term(a)
	}
	tt := ab.in.tt
	var y *Term
	if isHardOp(x.op, x.args) {
		y = tt.mk(OVar, x.sort, 0, "abs!"+itoa(x.id))
		e := absEnt{v: y, a: as[0], op: x.op}
		if len(as) > 1 {
			e.b = as[1]
		}
		ab.ents = append(ab.ents, e)
	} else {
		y = tt.rebuild(x, as)
	}
	ab.memo[x] = y
	return y
}

func itoa(n int) string {
	if n == 0 {
		return "0"
	}
	s := ""
	for ; n > 0; n /= 10 {
		s = string(rune('0'+n%10)) + s
	}
	return s
}

// lemmas are facts of IEEE arithmetic about the abstracted operations.
func (ab *abstraction) lemmas() []*Term {
	tt := ab.in.tt
	var r []*Term
	imp := func(c ...*Term) { // all but the last imply the last
		x := tt.T
		for _, y := range c[:len(c)-1] {
			x = tt.And(x, y)
		}
		l := tt.Or(tt.Not(x), c[len(c)-1])
		if !l.isTrue() {
			r = append(r, l)
		}
	}
	le := func(a, b *Term) *Term { return tt.FCmp(OFLe, a, b) }
	lt := func(a, b *Term) *Term { return tt.FCmp(OFLt, a, b) }
	isF := func(t *Term) bool { return t.sort.k == KF64 || t.sort.k == KF32 }
	num := func(t *Term) *Term { return tt.Not(tt.FIsNaN(t)) }
	for i, e := range ab.ents {
		if !isF(e.v) || !isF(e.a) || len(r) > 400 {
			continue
		}
		zero, one, inf := tt.FConst(0, e.v.sort), tt.FConst(1, e.v.sort), tt.FConst(math.Inf(1), e.v.sort)
		switch e.op {
		case OFAdd:
			imp(le(zero, e.a), le(zero, e.b), tt.And(le(e.a, e.v), le(e.b, e.v)))
		case OFMul:
			fin := tt.And(lt(e.a, inf), lt(e.b, inf))
			imp(le(zero, e.a), le(zero, e.b), fin, le(zero, e.v))
			imp(le(zero, e.a), le(e.a, one), le(zero, e.b), fin, le(e.v, e.b))
			imp(le(zero, e.b), le(e.b, one), le(zero, e.a), fin, le(e.v, e.a))
		case OFDiv:
			imp(le(zero, e.a), lt(e.a, inf), lt(zero, e.b), le(zero, e.v))
			imp(le(zero, e.a), le(e.a, e.b), lt(zero, e.b), lt(e.b, inf), le(e.v, one))
		case OFSqrt:
			imp(le(zero, e.a), le(zero, e.v))
		}
		for j := 0; j < i; j++ {
			f := ab.ents[j]
			if f.op != e.op || f.v.sort != e.v.sort {
				continue
			}
			mono := func(x, y, c *Term) {
				pos := lt(zero, c)
				if e.op == OFMul {
					pos = le(zero, c)
				}
				imp(pos, num(e.v), num(f.v), le(x, y), le(e.v, f.v))
				imp(pos, num(e.v), num(f.v), le(y, x), le(f.v, e.v))
			}
			switch e.op {
			case OFDiv:
				if e.b == f.b {
					mono(e.a, f.a, e.b)
				}
			case OFMul:
				switch {
				case e.a == f.a:
					mono(e.b, f.b, e.a)
				case e.b == f.b:
					mono(e.a, f.a, e.b)
				case e.a == f.b:
					mono(e.b, f.a, e.a)
				case e.b == f.a:
					mono(e.a, f.b, e.b)
				}
			}
		}
	}
	return r
}

// refuted tries to refute the path condition and c in the abstraction.
func (in *Interp) refuted(c *Term) bool {
	hard := c.hard
	for _, p := range in.pc {
		hard = hard || p.hard
	}
	if !hard {
		return false
	}
	ab := &abstraction{in: in, memo: map[*Term]*Term{}}
	ac := ab.term(c)
	var pc []*Term
	for _, p := range in.pc {
		pc = append(pc, ab.term(p))
	}
	if ac.isFalse() {
		return true
	}
	x := ac
	for _, l := range ab.lemmas() {
		x = in.tt.And(x, l)
	}
	if in.sol2 == nil {
		in.sol2 = newSolver(in.ex.solverBin, in.ex.solverArgs...)
	}
	r, _ := in.sol2.check(pc, x, 1500, nil)
	return r == unsat
}

// guess looks for a model of the path condition and c near the model at hand. It never decides infeasibility.
func (in *Interp) guess(c *Term) map[*Term]uint64 {
	if c.uf || in.approx || len(in.pathVars) == 0 {
		return nil
	}
	// conditions that mention a term with few variables are evaluated first
	base := map[*Term]uint64{}
	for k, v := range in.model {
		base[k] = v
	}
	rng := uint64(0x9e3779b97f4a7c15) ^ uint64(len(in.pc))<<32 ^ uint64(c.id)
	next := func(n int) int {
		rng ^= rng << 13
		rng ^= rng >> 7
		rng ^= rng << 17
		return int(rng>>33) % n
	}
	m := map[*Term]uint64{}
	pick := func(v *Term) uint64 {
		switch v.sort.k {
		case KBool:
			return uint64(next(2))
		case KF64, KF32:
			var f float64
			switch next(9) {
			case 6, 7: // close to another value, or to a simple one
				f = float64(1 + next(8))
				if o := in.pathVars[next(len(in.pathVars))]; o.sort == v.sort && next(3) > 0 {
					f = in.tt.mk(OConst, o.sort, m[o], "").f()
				}
				switch next(4) {
				case 0:
					f = math.Nextafter(f, math.Inf(1))
				case 1:
					f = math.Nextafter(f, math.Inf(-1))
				case 2:
					f *= 1 + math.Pow(10, -float64(2+next(14)))
				case 3:
					f += math.Pow(10, -float64(2+next(14)))
				}
			case 8:
				f = []float64{math.Inf(1), math.Inf(-1), math.NaN(), math.MaxFloat64, 1 << 53, 1<<53 + 2, -0.5, 1e-300}[next(8)]
			case 0:
				f = []float64{0, 1, 2, 0.5, 0.25, 3, 10, -1}[next(8)]
			case 1:
				f = float64(next(100))
			case 2:
				f = float64(next(1000)) / 1000
			case 3:
				f = float64(next(1000000))
			case 4:
				f = float64(next(2000)-1000) / 8
			default:
				o := in.pathVars[next(len(in.pathVars))]
				if o.sort == v.sort {
					return base[o]
				}
				f = float64(next(1000)) / 16
			}
			if v.sort.k == KF32 {
				return canonF32(float32(f))
			}
			return canonF64(f)
		}
		if next(3) == 0 {
			if o := in.pathVars[next(len(in.pathVars))]; o.sort == v.sort {
				return (m[o] + uint64(next(3)) - 1) & mask(v.sort.w)
			}
			return (uint64(1)<<uint(next(64)) + uint64(next(3)) - 1) & mask(v.sort.w)
		}
		return uint64(next(300)) & mask(v.sort.w)
	}
	for trial := 0; trial < 250; trial++ {
		for k := range m {
			delete(m, k)
		}
		for k, v := range base {
			m[k] = v
		}
		if trial < 8 { // one value for all variables of a sort
			x := pick(in.pathVars[0])
			for _, v := range in.pathVars {
				if v.sort == in.pathVars[0].sort {
					m[v] = x
				}
			}
		}
		n := 1 + next(len(in.pathVars))
		if trial < 8 {
			n = trial % 2
		}
		for i := 0; i < n; i++ {
			v := in.pathVars[next(len(in.pathVars))]
			m[v] = pick(v)
		}
		memo := map[*Term]uint64{}
		if evalTerm(c, m, memo, in.tt) == 0 {
			continue
		}
		ok := true
		for _, p := range in.pc {
			if evalTerm(p, m, memo, in.tt) == 0 {
				ok = false
				break
			}
		}
		if ok {
			return m
		}
	}
	return nil
}
