package main

import (
	"fmt"
	"math"
	"math/big"
	"math/bits"
	"strconv"
	"strings"
)

// Terms: hash-consed DAG over Bool, bit-vectors and IEEE-754 floats.

type Op uint8

const (
	OConst Op = iota // Bool (val 0/1), BV (val), F64/F32 (val = IEEE bits)
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq // structural equality (=): for FP, NaN = NaN and -0 != +0
	// BV
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OShl
	OLshr
	OAshr
	OUlt
	OUle
	OSlt
	OSle
	OExtract // val = hi<<8|lo
	OZext
	OSext
	OConcat
	// FP
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFLt
	OFLe
	OFEq
	OFIsNaN
	OFIsInf
	OFRound // val: 0 RNE,1 RNA,2 RTP(ceil),3 RTN(floor),4 RTZ(trunc)
	OFtoF   // convert between float sorts
	OStoF   // signed bv to float
	OUtoF   // unsigned bv to float
	OFtoS   // float to signed bv (RTZ); only meaningful in range
	OFtoU
	OBVtoF // reinterpret bits
	OUF    // uninterpreted function, name
)

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KF64
	KF32
)

type Sort struct {
	k Kind
	w uint8
}

var (
	SBool = Sort{KBool, 0}
	SF64  = Sort{KF64, 64}
	SF32  = Sort{KF32, 32}
)

func SBV(w int) Sort { return Sort{KBV, uint8(w)} }

func (s Sort) String() string {
	switch s.k {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.w)
	case KF64:
		return "(_ FloatingPoint 11 53)"
	default:
		return "(_ FloatingPoint 8 24)"
	}
}

type Term struct {
	op   Op
	sort Sort
	args []*Term
	val  uint64
	name string
	id   int
	sent bool // already defined in the solver process
	uf   bool // contains an uninterpreted function
	hard bool // contains an operation that is abstracted first
}

type tkey struct {
	op         Op
	sort       Sort
	val        uint64
	name       string
	a0, a1, a2 int
}

type TermTab struct {
	tab  map[tkey]*Term
	n    int
	T, F *Term
	vars []*Term
	nz   map[*Term]*Term
}

func NewTermTab() *TermTab {
	t := &TermTab{tab: map[tkey]*Term{}, nz: map[*Term]*Term{}}
	t.F = t.mk(OConst, SBool, 0, "")
	t.T = t.mk(OConst, SBool, 1, "")
	return t
}

func (t *TermTab) mk(op Op, s Sort, val uint64, name string, args ...*Term) *Term {
	k := tkey{op: op, sort: s, val: val, name: name, a0: -1, a1: -1, a2: -1}
	uf, hard := op == OUF, isHardOp(op, args)
	for i, a := range args {
		switch i {
		case 0:
			k.a0 = a.id
		case 1:
			k.a1 = a.id
		case 2:
			k.a2 = a.id
		default:
			panic("too many term args")
		}
		uf = uf || a.uf
		hard = hard || a.hard
	}
	if x, ok := t.tab[k]; ok {
		return x
	}
	x := &Term{op: op, sort: s, val: val, name: name, args: args, id: t.n, uf: uf, hard: hard}
	t.n++
	t.tab[k] = x
	if op == OVar {
		t.vars = append(t.vars, x)
	}
	return x
}

func (x *Term) isConst() bool { return x.op == OConst }
func (x *Term) isTrue() bool  { return x.op == OConst && x.sort.k == KBool && x.val == 1 }
func (x *Term) isFalse() bool { return x.op == OConst && x.sort.k == KBool && x.val == 0 }

func (t *TermTab) Bool(b bool) *Term {
	if b {
		return t.T
	}
	return t.F
}
func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}
func (t *TermTab) BV(v uint64, w int) *Term { return t.mk(OConst, SBV(w), v&mask(uint8(w)), "") }
func canonF64(f float64) uint64 {
	if f != f {
		return 0x7ff8000000000001
	}
	return math.Float64bits(f)
}
func canonF32(f float32) uint64 {
	if f != f {
		return 0x7fc00000
	}
	return uint64(math.Float32bits(f))
}
func (t *TermTab) F64(f float64) *Term { return t.mk(OConst, SF64, canonF64(f), "") }
func (t *TermTab) F32(f float32) *Term { return t.mk(OConst, SF32, canonF32(f), "") }
func (t *TermTab) FConst(f float64, s Sort) *Term {
	if s.k == KF32 {
		return t.F32(float32(f))
	}
	return t.F64(f)
}
func (t *TermTab) Var(name string, s Sort) *Term { return t.mk(OVar, s, 0, name) }

func (x *Term) f() float64 {
	if x.sort.k == KF32 {
		return float64(math.Float32frombits(uint32(x.val)))
	}
	return math.Float64frombits(x.val)
}
func (x *Term) sval() int64 {
	w := x.sort.w
	return int64(x.val<<(64-w)) >> (64 - w)
}

func (t *TermTab) Not(a *Term) *Term {
	if a.isConst() {
		return t.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	return t.mk(ONot, SBool, 0, "", a)
}
func (t *TermTab) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return t.F
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if a == t.Not(b) {
		return t.F
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(OAnd, SBool, 0, "", a, b)
}
func (t *TermTab) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return t.T
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if a == t.Not(b) {
		return t.T
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(OOr, SBool, 0, "", a, b)
}
func (t *TermTab) Ite(c, a, b *Term) *Term {
	if c.isTrue() {
		return a
	}
	if c.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.sort.k == KBool {
		return t.Or(t.And(c, a), t.And(t.Not(c), b))
	}
	return t.mk(OIte, a.sort, 0, "", c, a, b)
}
func (t *TermTab) Eq(a, b *Term) *Term {
	if a == b {
		return t.T
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %v %v", a.sort, b.sort))
	}
	if a.isConst() && b.isConst() {
		return t.F // hash-consed: different constants
	}
	if a.sort.k == KBool {
		if a.isConst() {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return t.Not(a)
		}
		if a == t.Not(b) {
			return t.F
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() && a.op == OIte {
		x, y := a.args[1], a.args[2]
		if x.isConst() || y.isConst() {
			return t.Ite(a.args[0], t.Eq(x, b), t.Eq(y, b))
		}
	}
	if b.isConst() && (a.op == OZext) {
		in := a.args[0]
		if b.val&^mask(in.sort.w) != 0 {
			return t.F
		}
		return t.Eq(in, t.BV(b.val, int(in.sort.w)))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return t.mk(OEq, SBool, 0, "", a, b)
}

func (t *TermTab) BVOp(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("BVOp %d sort mismatch %v %v", op, a.sort, b.sort))
	}
	w := a.sort.w
	if a.isConst() && b.isConst() {
		x, y := a.val, b.val
		sx, sy := a.sval(), b.sval()
		var r uint64
		switch op {
		case OAdd:
			r = x + y
		case OSub:
			r = x - y
		case OMul:
			r = x * y
		case OUDiv:
			r = x / y
		case OSDiv:
			if sy == -1 {
				r = uint64(-sx)
			} else {
				r = uint64(sx / sy)
			}
		case OURem:
			r = x % y
		case OSRem:
			if sy == -1 {
				r = 0
			} else {
				r = uint64(sx % sy)
			}
		case OBAnd:
			r = x & y
		case OBOr:
			r = x | y
		case OBXor:
			r = x ^ y
		case OShl:
			if y >= uint64(w) {
				r = 0
			} else {
				r = x << y
			}
		case OLshr:
			if y >= uint64(w) {
				r = 0
			} else {
				r = x >> y
			}
		case OAshr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			r = uint64(sx >> y)
		default:
			panic("bvop")
		}
		return t.BV(r, int(w))
	}
	switch op {
	case OAdd, OMul, OBAnd, OBOr, OBXor:
		if a.isConst() {
			a, b = b, a
		} else if !b.isConst() && a.id > b.id {
			a, b = b, a
		}
		if b.isConst() {
			switch {
			case op == OAdd && b.val == 0, op == OBOr && b.val == 0, op == OBXor && b.val == 0, op == OMul && b.val == 1, op == OBAnd && b.val == mask(w):
				return a
			case op == OMul && b.val == 0, op == OBAnd && b.val == 0:
				return b
			case op == OAdd && a.op == OAdd && a.args[1].isConst():
				return t.BVOp(OAdd, a.args[0], t.BVOp(OAdd, a.args[1], b))
			}
		}
	case OSub:
		if b.isConst() {
			return t.BVOp(OAdd, a, t.BV(-b.val, int(w)))
		}
		if a == b {
			return t.BV(0, int(w))
		}
	case OShl, OLshr, OAshr:
		if b.isConst() && b.val == 0 {
			return a
		}
	}
	return t.mk(op, a.sort, 0, "", a, b)
}
func (t *TermTab) BNot(a *Term) *Term {
	if a.isConst() {
		return t.BV(^a.val, int(a.sort.w))
	}
	return t.mk(OBNot, a.sort, 0, "", a)
}
func (t *TermTab) BNeg(a *Term) *Term {
	if a.isConst() {
		return t.BV(-a.val, int(a.sort.w))
	}
	return t.mk(ONeg, a.sort, 0, "", a)
}
func (t *TermTab) Cmp(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic("cmp sort mismatch")
	}
	if a.isConst() && b.isConst() {
		switch op {
		case OUlt:
			return t.Bool(a.val < b.val)
		case OUle:
			return t.Bool(a.val <= b.val)
		case OSlt:
			return t.Bool(a.sval() < b.sval())
		case OSle:
			return t.Bool(a.sval() <= b.sval())
		}
	}
	if a == b {
		return t.Bool(op == OUle || op == OSle)
	}
	// canonical form: only lt; le(a,b) = not lt(b,a)
	if op == OUle {
		return t.Not(t.Cmp(OUlt, b, a))
	}
	if op == OSle {
		return t.Not(t.Cmp(OSlt, b, a))
	}
	if op == OUlt {
		if b.isConst() && b.val == 0 {
			return t.F
		}
		if a.isConst() && a.val == mask(a.sort.w) {
			return t.F
		}
		// small zero-extended values
		if a.op == OZext && b.isConst() && b.val > mask(a.args[0].sort.w) {
			return t.T
		}
		if a.op == OZext && b.isConst() {
			return t.Cmp(OUlt, a.args[0], t.BV(b.val, int(a.args[0].sort.w)))
		}
		if b.op == OZext && a.isConst() {
			if a.val > mask(b.args[0].sort.w) {
				return t.F
			}
			return t.Cmp(OUlt, t.BV(a.val, int(b.args[0].sort.w)), b.args[0])
		}
	}
	if op == OSlt {
		if a.op == OZext && b.isConst() {
			if b.sval() <= 0 {
				return t.F
			}
			return t.Cmp(OUlt, a, b)
		}
		if b.op == OZext && a.isConst() {
			if a.sval() < 0 {
				return t.T
			}
			return t.Cmp(OUlt, a, b)
		}
	}
	return t.mk(op, SBool, 0, "", a, b)
}
func (t *TermTab) Ext(op Op, a *Term, w int) *Term {
	if int(a.sort.w) == w {
		return a
	}
	if a.isConst() {
		if op == OSext {
			return t.BV(uint64(a.sval()), w)
		}
		return t.BV(a.val, w)
	}
	if op == OSext && a.op == OZext {
		op = OZext
	}
	if a.op == op {
		return t.Ext(op, a.args[0], w)
	}
	return t.mk(op, SBV(w), 0, "", a)
}
func (t *TermTab) Extract(a *Term, hi, lo int) *Term {
	if lo == 0 && hi == int(a.sort.w)-1 {
		return a
	}
	if a.isConst() {
		return t.BV(a.val>>uint(lo), hi-lo+1)
	}
	if lo == 0 && (a.op == OZext || a.op == OSext) {
		in := a.args[0]
		if int(in.sort.w) == hi+1 {
			return in
		}
		if int(in.sort.w) > hi+1 {
			return t.Extract(in, hi, 0)
		}
		return t.Ext(a.op, in, hi+1)
	}
	return t.mk(OExtract, SBV(hi-lo+1), uint64(hi)<<8|uint64(lo), "", a)
}

func fop(op Op, x, y float64, f32 bool) float64 {
	if f32 {
		a, b := float32(x), float32(y)
		switch op {
		case OFAdd:
			return float64(a + b)
		case OFSub:
			return float64(a - b)
		case OFMul:
			return float64(a * b)
		case OFDiv:
			return float64(a / b)
		}
	}
	switch op {
	case OFAdd:
		return x + y
	case OFSub:
		return x - y
	case OFMul:
		return x * y
	case OFDiv:
		return x / y
	}
	panic("fop")
}

func (t *TermTab) FOp(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic("fop sort mismatch")
	}
	if a.isConst() && b.isConst() {
		return t.FConst(fop(op, a.f(), b.f(), a.sort.k == KF32), a.sort)
	}
	if op == OFMul && b.isConst() && b.f() == 1 {
		return a
	}
	if op == OFMul && a.isConst() && a.f() == 1 {
		return b
	}
	if op == OFDiv && b.isConst() && b.f() == 1 {
		return a
	}
	if (op == OFAdd || op == OFMul) && a.id > b.id {
		a, b = b, a
	}
	return t.mk(op, a.sort, 0, "", a, b)
}
func (t *TermTab) FNeg(a *Term) *Term {
	if a.isConst() {
		return t.FConst(-a.f(), a.sort)
	}
	if a.op == OFNeg {
		return a.args[0]
	}
	return t.mk(OFNeg, a.sort, 0, "", a)
}
func (t *TermTab) FAbs(a *Term) *Term {
	a = t.noZero(a)
	if a.isConst() {
		return t.FConst(math.Abs(a.f()), a.sort)
	}
	switch a.op {
	case OFAbs:
		return a
	case OFNeg:
		return t.FAbs(a.args[0])
	case OFSub: // |a-b| = |b-a|
		if a.args[0].id > a.args[1].id {
			a = t.FOp(OFSub, a.args[1], a.args[0])
		}
	}
	return t.mk(OFAbs, a.sort, 0, "", a)
}
// noZero drops additions of zero inside sums, differences and products: the result is the same number up to
// the sign of zero, which comparisons, absolute values and NaN tests do not see.
func (t *TermTab) noZero(x *Term) *Term {
	switch x.op {
	case OFAdd, OFSub, OFMul:
	default:
		return x
	}
	if y, ok := t.nz[x]; ok {
		return y
	}
	y := x
	a, b := t.noZero(x.args[0]), t.noZero(x.args[1])
	switch {
	case b.isConst() && b.f() == 0 && x.op != OFMul:
		y = a
	case a.isConst() && a.f() == 0 && x.op == OFAdd:
		y = b
	default:
		y = t.FOp(x.op, a, b)
	}
	t.nz[x] = y
	return y
}
func (t *TermTab) FSqrt(a *Term) *Term {
	if a.isConst() {
		return t.FConst(math.Sqrt(a.f()), a.sort)
	}
	return t.mk(OFSqrt, a.sort, 0, "", a)
}
func (t *TermTab) FRound(mode uint64, a *Term) *Term {
	if a.isConst() {
		x := a.f()
		switch mode {
		case 0:
			x = math.RoundToEven(x)
		case 1:
			x = math.Round(x)
		case 2:
			x = math.Ceil(x)
		case 3:
			x = math.Floor(x)
		case 4:
			x = math.Trunc(x)
		}
		return t.FConst(x, a.sort)
	}
	return t.mk(OFRound, a.sort, mode, "", a)
}

// exactIntF reports whether a is an exact integer-to-float conversion; returns the integer term widened to 64 bits (signed).
func (t *TermTab) intSrc(a *Term) (*Term, bool) {
	for a.op == OFtoF && a.sort.k == KF64 {
		a = a.args[0]
	}
	if a.op == OStoF {
		src := a.args[0]
		lim := uint8(53)
		if a.sort.k == KF32 {
			lim = 24
		}
		if src.sort.w <= lim {
			return t.Ext(OSext, src, 64), true
		}
		// sext of a narrow value
		if src.op == OSext || src.op == OZext {
			in := src.args[0]
			if in.sort.w < lim {
				return t.Ext(src.op, in, 64), true
			}
		}
	}
	if a.op == OUtoF {
		src := a.args[0]
		if lim := map[bool]uint8{true: 24, false: 53}[a.sort.k == KF32]; src.sort.w <= lim {
			return t.Ext(OZext, src, 64), true
		}
	}
	if a.isConst() {
		f := a.f()
		if f == math.Trunc(f) && math.Abs(f) < 1<<53 && !(f == 0 && math.Signbit(f)) {
			return t.BV(uint64(int64(f)), 64), true
		}
	}
	return nil, false
}

// intBound rewrites the comparison of a converted integer with a constant as a
// comparison of integers: the conversion is monotone, so the integers whose
// conversion is at most (below) c are those up to a bound, found by bisection.
func (t *TermTab) intBound(op Op, a, b *Term) *Term {
	conv := func(x *Term) bool { return x.op == OStoF || x.op == OUtoF }
	var x, c *Term
	switch {
	case conv(a) && b.isConst():
		x, c = a, b
	case conv(b) && a.isConst():
		x, c = b, a
	default:
		return nil
	}
	src := x.args[0]
	w := src.sort.w
	f := c.f()
	signed := x.op == OStoF
	// at maps the i-th value in increasing order to its bits
	last := ^uint64(0) >> (64 - w)
	at := func(i uint64) uint64 {
		if signed {
			return (i + uint64(1)<<(w-1)) & last
		}
		return i
	}
	val := func(i uint64) float64 {
		v := at(i)
		if signed {
			s := int64(v<<(64-w)) >> (64 - w)
			if x.sort.k == KF32 {
				return float64(float32(s))
			}
			return float64(s)
		}
		if x.sort.k == KF32 {
			return float64(float32(v))
		}
		return float64(v)
	}
	// upto: x converts to a number <= f (strict: < f)
	upto := func(strict bool) *Term {
		in := func(i uint64) bool {
			if strict {
				return val(i) < f
			}
			return val(i) <= f
		}
		if !in(0) {
			return t.F
		}
		if in(last) {
			return t.T
		}
		lo, hi := uint64(0), last
		for hi-lo > 1 {
			if m := lo + (hi-lo)/2; in(m) {
				lo = m
			} else {
				hi = m
			}
		}
		k := t.BV(at(lo), int(w))
		if signed {
			return t.Cmp(OSle, src, k)
		}
		return t.Cmp(OUle, src, k)
	}
	switch {
	case op == OFEq:
		return t.And(upto(false), t.Not(upto(true)))
	case op == OFLe && x == a:
		return upto(false)
	case op == OFLt && x == a:
		return upto(true)
	case op == OFLe: // c <= x
		return t.Not(upto(true))
	case op == OFLt: // c < x
		return t.Not(upto(false))
	}
	return nil
}

func (t *TermTab) FCmp(op Op, a, b *Term) *Term {
	if a.sort != b.sort {
		panic("fcmp sort mismatch")
	}
	a, b = t.noZero(a), t.noZero(b)
	if a.isConst() && b.isConst() {
		x, y := a.f(), b.f()
		switch op {
		case OFLt:
			return t.Bool(x < y)
		case OFLe:
			return t.Bool(x <= y)
		case OFEq:
			return t.Bool(x == y)
		}
	}
	if (a.isConst() && a.f() != a.f()) || (b.isConst() && b.f() != b.f()) {
		return t.F
	}
	if a == b {
		if op == OFLt {
			return t.F
		}
		return t.Not(t.FIsNaN(a))
	}
	if !(a.isConst() && b.isConst()) {
		if ia, ok := t.intSrc(a); ok {
			if ib, ok := t.intSrc(b); ok {
				switch op {
				case OFLt:
					return t.Cmp(OSlt, ia, ib)
				case OFLe:
					return t.Cmp(OSle, ia, ib)
				case OFEq:
					return t.Eq(ia, ib)
				}
			}
		}
	}
	if r := t.intBound(op, a, b); r != nil {
		return r
	}
	if op == OFEq && a.id > b.id {
		a, b = b, a
	}
	return t.mk(op, SBool, 0, "", a, b)
}
func (t *TermTab) FIsNaN(a *Term) *Term {
	a = t.noZero(a)
	if a.isConst() {
		return t.Bool(a.f() != a.f())
	}
	switch a.op {
	case OStoF, OUtoF:
		return t.F
	case OFNeg, OFAbs, OFRound:
		return t.FIsNaN(a.args[0])
	case OFtoF:
		return t.FIsNaN(a.args[0])
	case OIte:
		return t.Ite(a.args[0], t.FIsNaN(a.args[1]), t.FIsNaN(a.args[2]))
	}
	return t.mk(OFIsNaN, SBool, 0, "", a)
}
func (t *TermTab) FIsInf(a *Term) *Term {
	if a.isConst() {
		return t.Bool(math.IsInf(a.f(), 0))
	}
	return t.mk(OFIsInf, SBool, 0, "", a)
}
func (t *TermTab) FtoF(a *Term, s Sort) *Term {
	if a.sort == s {
		return a
	}
	if a.isConst() {
		return t.FConst(a.f(), s)
	}
	// widening then narrowing is the identity
	if a.op == OFtoF && a.args[0].sort == s && s.k == KF32 {
		return a.args[0]
	}
	return t.mk(OFtoF, s, 0, "", a)
}
func (t *TermTab) StoF(a *Term, s Sort) *Term {
	if a.isConst() {
		if s.k == KF32 {
			return t.F32(float32(a.sval()))
		}
		return t.F64(float64(a.sval()))
	}
	switch a.op {
	case OSext:
		return t.StoF(a.args[0], s)
	case OZext:
		return t.UtoF(a.args[0], s)
	}
	return t.mk(OStoF, s, 0, "", a)
}
func (t *TermTab) UtoF(a *Term, s Sort) *Term {
	if a.isConst() {
		if s.k == KF32 {
			return t.F32(float32(a.val))
		}
		return t.F64(float64(a.val))
	}
	if a.op == OZext {
		return t.UtoF(a.args[0], s)
	}
	return t.mk(OUtoF, s, 0, "", a)
}
// raw conversion; caller guards the range
func (t *TermTab) FtoI(op Op, a *Term, w int) *Term {
	if a.isConst() {
		f := math.Trunc(a.f())
		if op == OFtoS {
			if f >= -math.Ldexp(1, w-1) && f < math.Ldexp(1, w-1) {
				return t.BV(uint64(int64(f)), w)
			}
		} else if f >= 0 && f < math.Ldexp(1, w) {
			bf := new(big.Float).SetFloat64(f)
			u, _ := bf.Uint64()
			return t.BV(u, w)
		}
		return t.BV(0, w)
	}
	return t.mk(op, SBV(w), 0, "", a)
}
func (t *TermTab) BVtoF(a *Term, s Sort) *Term {
	if a.isConst() {
		if s.k == KF32 {
			return t.F32(math.Float32frombits(uint32(a.val)))
		}
		return t.F64(math.Float64frombits(a.val))
	}
	return t.mk(OBVtoF, s, 0, "", a)
}
func (t *TermTab) UF(name string, s Sort, args ...*Term) *Term {
	return t.mk(OUF, s, 0, name, args...)
}

// ---- SMT-LIB printing ----

var opNames = map[Op]string{
	ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv",
	OURem: "bvurem", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr",
	OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat",
	OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs", OFSqrt: "fp.sqrt RNE",
	OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq", OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite",
}

func smtConst(x *Term) string {
	switch x.sort.k {
	case KBool:
		if x.val == 1 {
			return "true"
		}
		return "false"
	case KBV:
		return bvLit(x.val, int(x.sort.w))
	case KF64:
		f := x.f()
		if f != f {
			return "(_ NaN 11 53)"
		}
		b := x.val
		return fmt.Sprintf("(fp %s %s %s)", bvLit(b>>63, 1), bvLit(b>>52&0x7ff, 11), bvLit(b&(1<<52-1), 52))
	default:
		f := x.f()
		if f != f {
			return "(_ NaN 8 24)"
		}
		b := x.val
		return fmt.Sprintf("(fp %s %s %s)", bvLit(b>>31, 1), bvLit(b>>23&0xff, 8), bvLit(b&(1<<23-1), 23))
	}
}
func bvLit(v uint64, w int) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", w/4, v&mask(uint8(w)))
	}
	return fmt.Sprintf("#b%0*b", w, v&mask(uint8(w)))
}

func (x *Term) ref() string {
	if x.op == OConst {
		return smtConst(x)
	}
	if x.op == OVar {
		return "|" + x.name + "|"
	}
	return "t" + strconv.Itoa(x.id)
}

// body prints the definition of x over references to its arguments.
func (x *Term) body() string {
	var sb strings.Builder
	sb.WriteByte('(')
	switch x.op {
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", x.val>>8, x.val&0xff)
	case OZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", x.sort.w-x.args[0].sort.w)
	case OSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", x.sort.w-x.args[0].sort.w)
	case OFtoF, OStoF:
		fmt.Fprintf(&sb, "(_ to_fp %s) RNE", ebsb(x.sort))
	case OUtoF:
		fmt.Fprintf(&sb, "(_ to_fp_unsigned %s) RNE", ebsb(x.sort))
	case OFtoS:
		fmt.Fprintf(&sb, "(_ fp.to_sbv %d) RTZ", x.sort.w)
	case OFtoU:
		fmt.Fprintf(&sb, "(_ fp.to_ubv %d) RTZ", x.sort.w)
	case OBVtoF:
		fmt.Fprintf(&sb, "(_ to_fp %s)", ebsb(x.sort))
	case OFRound:
		sb.WriteString("fp.roundToIntegral " + []string{"RNE", "RNA", "RTP", "RTN", "RTZ"}[x.val])
	case OUF:
		sb.WriteString("|uf:" + x.name + "|")
	default:
		n, ok := opNames[x.op]
		if !ok {
			panic(fmt.Sprintf("no smt name for op %d", x.op))
		}
		sb.WriteString(n)
	}
	for _, a := range x.args {
		sb.WriteByte(' ')
		sb.WriteString(a.ref())
	}
	sb.WriteByte(')')
	return sb.String()
}
func ebsb(s Sort) string {
	if s.k == KF32 {
		return "8 24"
	}
	return "11 53"
}

// eval computes x under a model (variables and UF points by native functions where possible).
func evalTerm(x *Term, m map[*Term]uint64, memo map[*Term]uint64, t *TermTab) uint64 {
	if x.op == OConst {
		return x.val
	}
	if v, ok := memo[x]; ok {
		return v
	}
	var r uint64
	if x.op == OVar {
		r = m[x]
	} else if x.op == OUF {
		av := make([]float64, len(x.args))
		for i, a := range x.args {
			c := t.mk(OConst, a.sort, evalTerm(a, m, memo, t), "")
			av[i] = c.f()
		}
		r = canonF64(nativeUF(x.name, av))
	} else {
		cs := make([]*Term, len(x.args))
		for i, a := range x.args {
			cs[i] = t.mk(OConst, a.sort, evalTerm(a, m, memo, t), "")
		}
		y := t.rebuild(x, cs)
		if !y.isConst() {
			panic(fmt.Sprintf("evalTerm: op %d not folded", x.op))
		}
		r = y.val
	}
	memo[x] = r
	return r
}

func (t *TermTab) rebuild(x *Term, a []*Term) *Term {
	switch x.op {
	case ONot:
		return t.Not(a[0])
	case OAnd:
		return t.And(a[0], a[1])
	case OOr:
		return t.Or(a[0], a[1])
	case OIte:
		return t.Ite(a[0], a[1], a[2])
	case OEq:
		return t.Eq(a[0], a[1])
	case OUDiv, OURem, OSDiv, OSRem:
		if a[1].isConst() && a[1].val == 0 {
			return t.BV(0, int(x.sort.w))
		}
		return t.BVOp(x.op, a[0], a[1])
	case OAdd, OSub, OMul, OBAnd, OBOr, OBXor, OShl, OLshr, OAshr:
		return t.BVOp(x.op, a[0], a[1])
	case OBNot:
		return t.BNot(a[0])
	case ONeg:
		return t.BNeg(a[0])
	case OUlt, OUle, OSlt, OSle:
		return t.Cmp(x.op, a[0], a[1])
	case OExtract:
		return t.Extract(a[0], int(x.val>>8), int(x.val&0xff))
	case OZext, OSext:
		return t.Ext(x.op, a[0], int(x.sort.w))
	case OFAdd, OFSub, OFMul, OFDiv:
		return t.FOp(x.op, a[0], a[1])
	case OFNeg:
		return t.FNeg(a[0])
	case OFAbs:
		return t.FAbs(a[0])
	case OFSqrt:
		return t.FSqrt(a[0])
	case OFLt, OFLe, OFEq:
		return t.FCmp(x.op, a[0], a[1])
	case OFIsNaN:
		return t.FIsNaN(a[0])
	case OFIsInf:
		return t.FIsInf(a[0])
	case OFRound:
		return t.FRound(x.val, a[0])
	case OFtoF:
		return t.FtoF(a[0], x.sort)
	case OStoF:
		return t.StoF(a[0], x.sort)
	case OUtoF:
		return t.UtoF(a[0], x.sort)
	case OFtoS, OFtoU:
		return t.FtoI(x.op, a[0], int(x.sort.w))
	case OBVtoF:
		return t.BVtoF(a[0], x.sort)
	case OUF:
		return t.UF(x.name, x.sort, a...)
	}
	panic("rebuild")
}

func nativeUF(name string, a []float64) float64 {
	switch name {
	case "exp":
		return math.Exp(a[0])
	case "log":
		return math.Log(a[0])
	case "log1p":
		return math.Log1p(a[0])
	case "expm1":
		return math.Expm1(a[0])
	case "exp2":
		return math.Exp2(a[0])
	case "log2":
		return math.Log2(a[0])
	case "log10":
		return math.Log10(a[0])
	case "atan":
		return math.Atan(a[0])
	case "atan2":
		return math.Atan2(a[0], a[1])
	case "tan":
		return math.Tan(a[0])
	case "tanh":
		return math.Tanh(a[0])
	case "sin":
		return math.Sin(a[0])
	case "cos":
		return math.Cos(a[0])
	case "pow":
		return math.Pow(a[0], a[1])
	case "mod":
		return math.Mod(a[0], a[1])
	case "fma":
		return math.FMA(a[0], a[1], a[2])
	}
	panic("nativeUF " + name)
}

var _ = bits.Len
