package main

import "math"

// Ranges of floating-point terms, from the bounds assumed on the path. Rounding is monotone, so an operation's range
// is spanned by its rounded results at the ends of its operands' ranges.

type fpRange struct {
	lo, hi float64
	nan    bool // may be NaN
}

var fullRange = fpRange{math.Inf(-1), math.Inf(1), true}

// bound records what an assumed literal says about ranges.
func (in *Interp) bound(c *Term, v bool) {
	switch c.op {
	case ONot:
		in.bound(c.args[0], !v)
	case OAnd:
		if v {
			in.bound(c.args[0], true)
			in.bound(c.args[1], true)
		}
	case OOr:
		if !v {
			in.bound(c.args[0], false)
			in.bound(c.args[1], false)
		}
	case OFIsNaN, OFIsInf:
		if !v {
			r := in.givenRange(c.args[0])
			if c.op == OFIsNaN {
				r.nan = false
			} else {
				r.lo, r.hi = math.Max(r.lo, -math.MaxFloat64), math.Min(r.hi, math.MaxFloat64)
			}
			in.setRange(c.args[0], r)
		}
	case OFLt, OFLe, OFEq:
		if !v {
			return
		}
		a, b := c.args[0], c.args[1]
		if a.isConst() && !b.isConst() {
			r := in.givenRange(b)
			r.nan = false
			r.lo = math.Max(r.lo, a.f())
			if c.op == OFEq {
				r.hi = math.Min(r.hi, a.f())
			}
			in.setRange(b, r)
		} else if b.isConst() && !a.isConst() {
			r := in.givenRange(a)
			r.nan = false
			r.hi = math.Min(r.hi, b.f())
			if c.op == OFEq {
				r.lo = math.Max(r.lo, b.f())
			}
			in.setRange(a, r)
		}
	}
}

func (in *Interp) givenRange(x *Term) fpRange {
	if r, ok := in.given[x]; ok {
		return r
	}
	return fullRange
}

func (in *Interp) setRange(x *Term, r fpRange) {
	if math.IsNaN(r.lo) || math.IsNaN(r.hi) {
		return
	}
	if in.given == nil {
		in.given = map[*Term]fpRange{}
	}
	in.given[x] = r
	in.ranges = nil
}

func (in *Interp) rangeOf(x *Term) fpRange {
	if x.isConst() {
		f := x.f()
		if f != f {
			return fpRange{math.Inf(1), math.Inf(-1), true}
		}
		return fpRange{f, f, false}
	}
	if r, ok := in.ranges[x]; ok {
		return r
	}
	r := in.rangeOf1(x)
	g, ok := in.given[x]
	if !ok && x.op == OFAdd && len(in.given) > 0 {
		g, ok = in.given[in.tt.noZero(x)] // the same number but for the sign of zero
	}
	if ok {
		r.lo, r.hi, r.nan = math.Max(r.lo, g.lo), math.Min(r.hi, g.hi), r.nan && g.nan
	}
	if x.sort.k == KF32 {
		// ends are kept in double precision; an operation at single precision is widened by rounding outwards
		r.lo, r.hi = down32(r.lo), up32(r.hi)
	}
	if in.ranges == nil {
		in.ranges = map[*Term]fpRange{}
	}
	in.ranges[x] = r
	return r
}

func down32(f float64) float64 {
	g := float32(f)
	return float64(math.Nextafter32(g, float32(math.Inf(-1))))
}

func up32(f float64) float64 {
	g := float32(f)
	return float64(math.Nextafter32(g, float32(math.Inf(1))))
}

// span is the range of f at the corners; a NaN at a corner may also stand for any value nearby.
func span(a, b fpRange, f func(x, y float64) float64) fpRange {
	if a.lo > a.hi || b.lo > b.hi {
		return fullRange
	}
	r := fpRange{math.Inf(1), math.Inf(-1), a.nan || b.nan}
	for _, x := range [2]float64{a.lo, a.hi} {
		for _, y := range [2]float64{b.lo, b.hi} {
			z := f(x, y)
			if z != z {
				return fullRange
			}
			r.lo, r.hi = math.Min(r.lo, z), math.Max(r.hi, z)
		}
	}
	return r
}

func (r fpRange) infinite() bool { return math.IsInf(r.lo, 0) || math.IsInf(r.hi, 0) }
func (r fpRange) zero() bool     { return r.lo <= 0 && r.hi >= 0 }

func (in *Interp) rangeOf1(x *Term) fpRange {
	switch x.op {
	case OFAdd:
		return span(in.rangeOf(x.args[0]), in.rangeOf(x.args[1]), func(a, b float64) float64 { return a + b })
	case OFSub:
		return span(in.rangeOf(x.args[0]), in.rangeOf(x.args[1]), func(a, b float64) float64 { return a - b })
	case OFMul:
		a, b := in.rangeOf(x.args[0]), in.rangeOf(x.args[1])
		if a.infinite() && b.zero() || b.infinite() && a.zero() {
			return fullRange
		}
		return span(a, b, func(a, b float64) float64 { return a * b })
	case OFDiv:
		a, b := in.rangeOf(x.args[0]), in.rangeOf(x.args[1])
		if b.zero() || a.infinite() && b.infinite() {
			return fullRange
		}
		return span(a, b, func(a, b float64) float64 { return a / b })
	case OFNeg:
		a := in.rangeOf(x.args[0])
		return fpRange{-a.hi, -a.lo, a.nan}
	case OFAbs:
		a := in.rangeOf(x.args[0])
		if a.lo >= 0 {
			return a
		}
		return fpRange{0, math.Max(-a.lo, a.hi), a.nan}
	case OIte:
		a, b := in.rangeOf(x.args[1]), in.rangeOf(x.args[2])
		return fpRange{math.Min(a.lo, b.lo), math.Max(a.hi, b.hi), a.nan || b.nan}
	case OFtoF:
		return in.rangeOf(x.args[0])
	case OStoF:
		return fpRange{-math.Ldexp(1, int(x.args[0].sort.w)-1), math.Ldexp(1, int(x.args[0].sort.w)-1), false}
	case OUtoF:
		return fpRange{0, math.Ldexp(1, int(x.args[0].sort.w)), false}
	case OUF:
		if len(x.args) != 1 {
			return fullRange
		}
		a := in.rangeOf(x.args[0])
		switch x.name {
		case "exp":
			if a.lo > a.hi {
				return fullRange
			}
			return fpRange{math.Max(0, math.Exp(a.lo)*(1-1e-12)), math.Exp(a.hi) * (1 + 1e-12), a.nan}
		case "atan":
			return fpRange{-1.571, 1.571, a.nan}
		}
	}
	return fullRange
}

// inRange decides a comparison by the ranges of its sides.
func (in *Interp) decideRange(c *Term) (bool, bool) {
	if len(in.given) == 0 {
		return false, false
	}
	a := in.rangeOf(c.args[0])
	if c.op == OFIsNaN {
		return false, !a.nan
	}
	if c.op == OFIsInf {
		return false, !a.infinite()
	}
	b := in.rangeOf(c.args[1])
	if a.lo > a.hi || b.lo > b.hi {
		return false, false
	}
	switch c.op {
	case OFLt:
		if a.lo >= b.hi {
			return false, true
		}
		return true, a.hi < b.lo && !a.nan && !b.nan
	case OFLe:
		if a.lo > b.hi {
			return false, true
		}
		return true, a.hi <= b.lo && !a.nan && !b.nan
	case OFEq:
		return false, a.hi < b.lo || b.hi < a.lo
	}
	return false, false
}
