package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- branching ----

func (in *Interp) addLit(c *Term, v bool) {
	if c.isConst() {
		return
	}
	if _, ok := in.lits[c]; ok {
		return
	}
	in.lits[c] = v
	tt := in.tt
	switch c.op {
	case ONot:
		in.addLit(c.args[0], !v)
		return
	case OAnd:
		if v {
			in.addLit(c.args[0], true)
			in.addLit(c.args[1], true)
		}
	case OOr:
		if !v {
			in.addLit(c.args[0], false)
			in.addLit(c.args[1], false)
		}
	case OFLt:
		a, b := c.args[0], c.args[1]
		if v {
			in.addOrder(a, b, true)
			in.addLit(tt.FCmp(OFEq, a, b), false)
			in.addLit(tt.FCmp(OFLt, b, a), false)
			in.addLit(tt.FCmp(OFLe, a, b), true)
			in.addLit(tt.FCmp(OFLe, b, a), false)
			in.addLit(tt.FIsNaN(a), false)
			in.addLit(tt.FIsNaN(b), false)
		} else if in.notNaN(a) && in.notNaN(b) {
			in.addLit(tt.FCmp(OFLe, b, a), true)
		}
	case OFEq:
		a, b := c.args[0], c.args[1]
		if v {
			in.addOrder(a, b, false)
			in.addOrder(b, a, false)
			in.addLit(tt.FCmp(OFLt, a, b), false)
			in.addLit(tt.FCmp(OFLt, b, a), false)
			in.addLit(tt.FCmp(OFLe, a, b), true)
			in.addLit(tt.FCmp(OFLe, b, a), true)
			in.addLit(tt.FIsNaN(a), false)
			in.addLit(tt.FIsNaN(b), false)
		}
	case OFLe:
		a, b := c.args[0], c.args[1]
		if v {
			in.addOrder(a, b, false)
			in.addLit(tt.FCmp(OFLt, b, a), false)
			in.addLit(tt.FIsNaN(a), false)
			in.addLit(tt.FIsNaN(b), false)
		} else {
			in.addLit(tt.FCmp(OFLt, a, b), false)
			in.addLit(tt.FCmp(OFEq, a, b), false)
			if in.notNaN(a) && in.notNaN(b) {
				in.addLit(tt.FCmp(OFLt, b, a), true)
			}
		}
	case OEq:
		if v && c.args[0].sort.k == KBV {
			in.addLit(tt.Cmp(OSlt, c.args[0], c.args[1]), false)
			in.addLit(tt.Cmp(OSlt, c.args[1], c.args[0]), false)
			// a variable equal to a constant differs from every other constant
		}
	case OSlt:
		if v {
			in.addLit(tt.Eq(c.args[0], c.args[1]), false)
			in.addLit(tt.Cmp(OSlt, c.args[1], c.args[0]), false)
		}
	}
	n := tt.Not(c)
	if _, ok := in.lits[n]; !ok {
		in.lits[n] = !v
	}
}

func (in *Interp) litOf(c *Term) (bool, bool) {
	if c.isConst() {
		return c.val == 1, true
	}
	if v, ok := in.lits[c]; ok {
		return v, true
	}
	switch c.op {
	case ONot:
		v, ok := in.litOf(c.args[0])
		return !v, ok
	case OAnd:
		a, oka := in.litOf(c.args[0])
		if oka && !a {
			return false, true
		}
		b, okb := in.litOf(c.args[1])
		if okb && !b {
			return false, true
		}
		return true, oka && okb
	case OOr:
		a, oka := in.litOf(c.args[0])
		if oka && a {
			return true, true
		}
		b, okb := in.litOf(c.args[1])
		if okb && b {
			return true, true
		}
		return false, oka && okb
	}
	return false, false
}

// simp replaces known literals inside a boolean term.
func (in *Interp) simp(c *Term) *Term {
	if c.sort.k != KBool {
		return c
	}
	if v, ok := in.litOf(c); ok {
		return in.tt.Bool(v)
	}
	switch c.op {
	case OAnd:
		return in.tt.And(in.simp(c.args[0]), in.simp(c.args[1]))
	case OOr:
		return in.tt.Or(in.simp(c.args[0]), in.simp(c.args[1]))
	case ONot:
		return in.tt.Not(in.simp(c.args[0]))
	case OFLt, OFLe, OFEq, OFIsNaN, OFIsInf:
		if v, ok := in.decideRange(c); ok {
			return in.tt.Bool(v)
		}
		if v, ok := in.decideOrder(c); ok {
			return in.tt.Bool(v)
		}
	}
	return c
}

func (in *Interp) assume(c *Term, v bool) {
	if !v {
		c = in.tt.Not(c)
	}
	if c.isTrue() {
		return
	}
	in.addLit(c, true)
	in.bound(c, true)
	in.pc = append(in.pc, c)
	if c.uf {
		in.approx = true
	}
	if in.model != nil && (c.uf || evalTerm(c, in.model, map[*Term]uint64{}, in.tt) == 0) {
		in.model = nil
	}
}

const (
	dForkF = 0
	dForkT = 1
	dForceF = 2
	dForceT = 3
)

// feasible decides the path condition with c.
func (in *Interp) feasible(c *Term) (satRes, map[*Term]uint64) {
	if c.hard && in.refuted(c) {
		return unsat, nil
	}
	if c.hard {
		if m := in.guess(c); m != nil {
			return sat, m
		}
	}
	t0 := time.Now()
	r, m := in.sol.check(in.pc, c, in.ex.branchMs, in.pathVars)
	if slowLog && time.Since(t0) > 2*time.Second {
		fmt.Fprintf(os.Stderr, "slow %.1fs %v at %s: %s\n", time.Since(t0).Seconds(), r, in.where(in.curFrame), trunc(termText(c, 6), 300))
	}
	return r, m
}

var slowLog = os.Getenv("GOSYM_SLOW") != ""

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func (in *Interp) branch(c *Term) bool {
	if c.isConst() {
		return c.val == 1
	}
	c = in.simp(c)
	if c.isConst() {
		return c.val == 1
	}
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		in.dec = append(in.dec, d)
		switch d {
		case dForkF, dForkT:
			in.assume(c, d == dForkT)
		case dForceF, dForceT:
			in.addLit(c, d == dForceT)
		default:
			panic(fmt.Sprintf("decision replay mismatch: %d", d))
		}
		return d&1 == 1
	}
	tOK, fOK, tKnown, fKnown := false, false, false, false
	if in.model != nil && !c.uf && !in.approx {
		if evalTerm(c, in.model, map[*Term]uint64{}, in.tt) == 1 {
			tOK, tKnown = true, true
		} else {
			fOK, fKnown = true, true
		}
	}
	var mt, mf map[*Term]uint64
	if !tKnown {
		r, m := in.feasible(c)
		tOK = r != unsat
		if r == sat {
			mt = m
		}
		if !tOK {
			// the path condition is believed satisfiable unless the other side is refuted too
			if in.model == nil {
				r2, m2 := in.feasible(in.tt.Not(c))
				if r2 == unsat {
					panic(abortPath{"infeasible"})
				}
				if r2 == sat {
					in.model = m2
				}
			}
			fOK, fKnown = true, true
		}
	} else {
		mt = in.model
	}
	if !fKnown {
		r, m := in.feasible(in.tt.Not(c))
		fOK = r != unsat
		if r == sat {
			mf = m
		}
	} else if fOK && mf == nil {
		mf = in.model
	}
	switch {
	case tOK && fOK:
		alt := append(append(make([]int32, 0, len(in.dec)+1), in.dec...), dForkF)
		in.ex.push(alt)
		in.dec = append(in.dec, dForkT)
		in.model = mt
		in.assume(c, true)
		return true
	case tOK:
		in.dec = append(in.dec, dForceT)
		if mt != nil {
			in.model = mt
		}
		in.addLit(c, true)
		return true
	case fOK:
		in.dec = append(in.dec, dForceF)
		in.addLit(c, false)
		return false
	}
	panic(abortPath{"infeasible"})
}

// choose forks n ways without a term.
func (in *Interp) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if in.pos < len(in.prefix) {
		d := in.prefix[in.pos]
		in.pos++
		in.dec = append(in.dec, d)
		return int(d) - 16
	}
	for i := n - 1; i >= 1; i-- {
		alt := append(append(make([]int32, 0, len(in.dec)+1), in.dec...), int32(16+i))
		in.ex.push(alt)
	}
	in.dec = append(in.dec, 16)
	return 0
}

// ---- arithmetic ----

func (fr *frame) unop(x *ssa.UnOp) value {
	in := fr.in
	tt := in.tt
	v := fr.get(x.X)
	switch x.Op {
	case token.MUL:
		if p, ok := v.(*symElem); ok {
			return p.load(in)
		}
		p, ok := v.(*value)
		if !ok {
			panic(unsupported{fmt.Sprintf("load through %T", v)})
		}
		if p == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		if in.watch {
			in.noteRead(fr, p)
		}
		return copyVal(*p)
	case token.NOT:
		return tt.Not(v.(*Term))
	case token.SUB:
		t := v.(*Term)
		if t.sort.k == KBV {
			return tt.BNeg(t)
		}
		return tt.FNeg(t)
	case token.XOR:
		return tt.BNot(v.(*Term))
	case token.ARROW:
		c := v.(*chanV)
		et := under(x.X.Type()).(*types.Chan).Elem()
		if c == nil || (len(c.buf) == 0 && !c.closed) {
			panic(unsupported{"blocking channel receive"})
		}
		var r value
		ok := true
		if len(c.buf) > 0 {
			r = c.buf[0]
			c.buf = c.buf[1:]
		} else {
			r = zero(tt, et)
			ok = false
		}
		if x.CommaOk {
			return tuple{r, tt.Bool(ok)}
		}
		return r
	}
	panic(unsupported{"unop " + x.Op.String()})
}

func (in *Interp) binop(op token.Token, t types.Type, a, b value, yt types.Type) value {
	tt := in.tt
	switch op {
	case token.EQL:
		return in.eqMixed(t, a, b)
	case token.NEQ:
		return tt.Not(in.eqMixed(t, a, b))
	}
	if x, ok := a.(Str); ok {
		y := b.(Str)
		switch op {
		case token.ADD:
			return strConcat(tt, x, y)
		case token.LSS:
			return tt.strLess(x, y)
		case token.GTR:
			return tt.strLess(y, x)
		case token.LEQ:
			return tt.Not(tt.strLess(y, x))
		case token.GEQ:
			return tt.Not(tt.strLess(x, y))
		}
	}
	x, ok := a.(*Term)
	if !ok {
		panic(unsupported{fmt.Sprintf("binop %v on %T", op, a)})
	}
	y := b.(*Term)
	switch x.sort.k {
	case KF64, KF32:
		switch op {
		case token.ADD:
			return tt.FOp(OFAdd, x, y)
		case token.SUB:
			return tt.FOp(OFSub, x, y)
		case token.MUL:
			return tt.FOp(OFMul, x, y)
		case token.QUO:
			return tt.FOp(OFDiv, x, y)
		case token.LSS:
			return tt.FCmp(OFLt, x, y)
		case token.LEQ:
			return tt.FCmp(OFLe, x, y)
		case token.GTR:
			return tt.FCmp(OFLt, y, x)
		case token.GEQ:
			return tt.FCmp(OFLe, y, x)
		}
	case KBool:
		switch op {
		case token.AND, token.LAND:
			return tt.And(x, y)
		case token.OR, token.LOR:
			return tt.Or(x, y)
		case token.XOR:
			return tt.Not(tt.Eq(x, y))
		}
	case KBV:
		sg := isSigned(t)
		switch op {
		case token.ADD:
			return tt.BVOp(OAdd, x, y)
		case token.SUB:
			return tt.BVOp(OSub, x, y)
		case token.MUL:
			return tt.BVOp(OMul, x, y)
		case token.QUO, token.REM:
			if in.branch(tt.Eq(y, tt.BV(0, int(y.sort.w)))) {
				in.goPanic("integer divide by zero")
			}
			o := OUDiv
			switch {
			case op == token.QUO && sg:
				o = OSDiv
			case op == token.REM && sg:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			return tt.BVOp(o, x, y)
		case token.AND:
			return tt.BVOp(OBAnd, x, y)
		case token.OR:
			return tt.BVOp(OBOr, x, y)
		case token.XOR:
			return tt.BVOp(OBXor, x, y)
		case token.AND_NOT:
			return tt.BVOp(OBAnd, x, tt.BNot(y))
		case token.SHL, token.SHR:
			w := int(x.sort.w)
			if isSigned(yt) {
				if in.branch(tt.Cmp(OSlt, y, tt.BV(0, int(y.sort.w)))) {
					in.goPanic("negative shift amount")
				}
			}
			var big *Term = tt.F
			yw := int(y.sort.w)
			var s *Term
			if yw <= w {
				s = tt.Ext(OZext, y, w)
			} else {
				big = tt.Not(tt.Cmp(OUlt, y, tt.BV(uint64(w), yw)))
				s = tt.Extract(y, w-1, 0)
			}
			s = tt.Ite(big, tt.BV(uint64(w), w), s)
			o := OShl
			if op == token.SHR {
				o = OLshr
				if sg {
					o = OAshr
				}
			}
			return tt.BVOp(o, x, s)
		case token.LSS:
			if sg {
				return tt.Cmp(OSlt, x, y)
			}
			return tt.Cmp(OUlt, x, y)
		case token.LEQ:
			if sg {
				return tt.Cmp(OSle, x, y)
			}
			return tt.Cmp(OUle, x, y)
		case token.GTR:
			if sg {
				return tt.Cmp(OSlt, y, x)
			}
			return tt.Cmp(OUlt, y, x)
		case token.GEQ:
			if sg {
				return tt.Cmp(OSle, y, x)
			}
			return tt.Cmp(OUle, y, x)
		}
	}
	panic(unsupported{"binop " + op.String()})
}

// eqMixed compares operands that may be interface and concrete.
func (in *Interp) eqMixed(t types.Type, a, b value) *Term {
	_, ia := a.(iface)
	_, ib := b.(iface)
	if ia != ib {
		panic(unsupported{"comparison of interface and concrete value"})
	}
	if pa, ok := a.(*symElem); ok {
		a = pa.concretize(in)
	}
	if pb, ok := b.(*symElem); ok {
		b = pb.concretize(in)
	}
	return in.eq(t, a, b)
}

func (in *Interp) convert(from, to types.Type, v value) value {
	tt := in.tt
	fu, tu := under(from), under(to)
	switch t := tu.(type) {
	case *types.Pointer, *types.Struct, *types.Map, *types.Chan, *types.Signature, *types.Interface, *types.Array:
		return v // unsafe.Pointer -> *T and identical layouts
	case *types.Slice:
		s, ok := v.(Str)
		if !ok {
			return v
		}
		if s.hasOpq() {
			panic(unsupported{"[]byte of the text of a symbolic number"})
		}
		eb := under(t.Elem()).(*types.Basic)
		l := s.list(tt)
		r := sliceV{}
		if eb.Kind() == types.Byte || eb.Kind() == types.Uint8 {
			for _, x := range l {
				r = append(r, x.b)
			}
			return r
		}
		for i := 0; i < len(l); {
			c, n := in.decodeRune(l[i:])
			r = append(r, c)
			i += n
		}
		return r
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return v
		}
		if t.Info()&types.IsString != 0 {
			switch x := v.(type) {
			case Str:
				return x
			case sliceV:
				eb := under(fu.(*types.Slice).Elem()).(*types.Basic)
				var l []seg
				for _, e := range x {
					c := e.(*Term)
					if eb.Kind() == types.Byte || eb.Kind() == types.Uint8 {
						l = append(l, seg{b: c})
					} else {
						l = append(l, in.encodeRune(c)...)
					}
				}
				return mkStr(l)
			case *Term:
				return mkStr(in.encodeRune(tt.Ext(OSext, x, 64)))
			}
		}
		x, ok := v.(*Term)
		if !ok {
			if p, ok := v.(*value); ok && t.Kind() == types.Uintptr {
				if p == nil {
					return tt.BV(0, 64)
				}
				return tt.BV(0x1000, 64)
			}
			panic(unsupported{fmt.Sprintf("conversion of %T to %s", v, to)})
		}
		s, ok := basicSort(t)
		if !ok {
			panic(unsupported{"conversion to " + to.String()})
		}
		switch {
		case x.sort.k == KBV && s.k == KBV:
			if s.w <= x.sort.w {
				return tt.Extract(x, int(s.w)-1, 0)
			}
			if isSigned(from) {
				return tt.Ext(OSext, x, int(s.w))
			}
			return tt.Ext(OZext, x, int(s.w))
		case x.sort.k == KBV:
			if isSigned(from) {
				return tt.StoF(x, s)
			}
			if x.sort.w == 64 && !x.isConst() && x.op != OZext && !in.branch(tt.Cmp(OSlt, x, tt.BV(0, 64))) {
				return tt.StoF(x, s) // below 2^63 both conversions agree
			}
			return tt.UtoF(x, s)
		case s.k == KBV && (x.sort.k == KF64 || x.sort.k == KF32):
			return in.floatToInt(x, t, s)
		case s.k == KF64 || s.k == KF32:
			return tt.FtoF(x, s)
		case s.k == KBool:
			return x
		}
	}
	panic(unsupported{fmt.Sprintf("conversion %s to %s", from, to)})
}

// floatToInt models the amd64 conversions (CVTTSD2SQ and truncation of its result; out-of-range gives the minimum value).
func (in *Interp) floatToInt(x *Term, t *types.Basic, s Sort) value {
	tt := in.tt
	if x.sort.k == KF32 {
		x = tt.FtoF(x, SF64)
	}
	if src, ok := tt.intSrc(x); ok {
		return tt.Extract(src, int(s.w)-1, 0)
	}
	sat := func(lo, hi float64, w int, bad uint64) *Term {
		ok := tt.And(tt.FCmp(OFLe, tt.F64(lo), x), tt.FCmp(OFLt, x, tt.F64(hi)))
		if ok.isTrue() {
			return tt.FtoI(OFtoS, x, w)
		}
		if ok.isFalse() {
			return tt.BV(bad, w)
		}
		// x truncates toward zero: values in (lo-1, lo) are in range as well for small widths, exact at 64 bits
		if in.branch(ok) {
			return tt.FtoI(OFtoS, x, w)
		}
		return tt.BV(bad, w)
	}
	switch t.Kind() {
	case types.Uint64, types.Uint, types.Uintptr:
		ok := tt.And(tt.FCmp(OFLe, tt.F64(0), x), tt.FCmp(OFLt, x, tt.F64(1<<63)))
		if in.branch(ok) {
			return tt.FtoI(OFtoS, x, 64)
		}
		panic(abortPath{"float to uint64 conversion outside [0, 2^63) (implementation-defined)"})
	case types.Int32, types.Int16, types.Int8, types.Uint8, types.Uint16:
		r := sat(-(1 << 31), 1<<31, 64, 1<<31)
		return tt.Extract(r, int(s.w)-1, 0)
	}
	r := sat(-(1 << 63), 1<<63, 64, 1<<63)
	return tt.Extract(r, int(s.w)-1, 0)
}

func (in *Interp) encodeRune(c *Term) []seg {
	tt := in.tt
	if c.isConst() {
		var l []seg
		for _, b := range []byte(string(rune(c.sval()))) {
			l = append(l, seg{b: tt.BV(uint64(b), 8)})
		}
		return l
	}
	w := int(c.sort.w)
	if !in.branch(tt.Cmp(OUlt, c, tt.BV(0x80, w))) {
		panic(abortPath{"non-ASCII symbolic rune (bound)"})
	}
	return []seg{{b: tt.Extract(c, 7, 0)}}
}

func (fr *frame) slice(x *ssa.Slice) value {
	in := fr.in
	base := fr.get(x.X)
	lo, hi, max := -1, -1, -1
	if x.Low != nil {
		lo = in.concIdx(fr.get(x.Low).(*Term))
	}
	if x.High != nil {
		hi = in.concIdx(fr.get(x.High).(*Term))
	}
	if x.Max != nil {
		max = in.concIdx(fr.get(x.Max).(*Term))
	}
	if s, ok := base.(Str); ok {
		if s.hasOpq() {
			if lo <= 0 && hi < 0 {
				return s
			}
			// a concrete prefix or suffix can still be cut off
			l := s.list(in.tt)
			if lo > 0 && hi < 0 && lo <= len(l) {
				for _, g := range l[:lo] {
					if g.o != nil {
						panic(unsupported{"slicing the text of a symbolic number"})
					}
				}
				return mkStr(l[lo:])
			}
			panic(unsupported{"slicing the text of a symbolic number"})
		}
		n := len(s.s)
		if !s.conc() {
			n = len(s.segs)
		}
		if lo < 0 {
			lo = 0
		}
		if hi == -1 {
			hi = n
		}
		if lo > hi || hi > n || lo < 0 {
			in.goPanic("slice bounds out of range")
		}
		if s.conc() {
			return S(s.s[lo:hi])
		}
		return mkStr(s.segs[lo:hi])
	}
	var a []value
	isNil := false
	switch s := base.(type) {
	case sliceV:
		a = s
		isNil = s == nil
	case *value:
		if s == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		a = []value((*s).(arrayV))
	default:
		panic(unsupported{fmt.Sprintf("slice of %T", base)})
	}
	if lo < 0 {
		lo = 0
	}
	if hi == -1 {
		hi = len(a)
	}
	if max == -1 {
		max = cap(a)
	}
	if lo < 0 || lo > hi || hi > max || max > cap(a) {
		in.goPanic("slice bounds out of range")
	}
	if isNil {
		return sliceV(nil)
	}
	return sliceV(a[lo:hi:max])
}

func (in *Interp) concIdx(t *Term) int {
	if t.isConst() {
		v := t.sval()
		if v < 0 {
			in.goPanic("slice bounds out of range")
		}
		return int(v)
	}
	return in.concInt(t, "slice bound")
}

// ---- memory ----

func (in *Interp) store(fr *frame, addr, v value) {
	p := in.ptr(addr)
	if in.watch {
		in.noteWrite(fr, p)
	}
	storeInto(p, v)
	if in.watch && in.frozen[p] {
		in.freeze(*p, map[interface{}]bool{})
	}
}

func (in *Interp) noteWrite(fr *frame, p *value) {
	if !in.frozen[p] {
		return
	}
	if in.locks > 0 {
		in.lockedW[p] = in.where(fr)
		return
	}
	in.race("unsynchronized write to shared memory at " + in.where(fr))
}

func (in *Interp) noteRead(fr *frame, p *value) {
	if in.locks == 0 && in.frozen[p] && fr.info.repo {
		in.plainR[p] = in.where(fr)
	}
}
func (in *Interp) noteMapWrite(fr *frame, m *mapV) {
	if !in.watch || m == nil || !m.frozen {
		return
	}
	if in.locks == 0 {
		in.race("unsynchronized write to a shared map at " + in.where(fr))
		return
	}
	in.lockedW[in.mapCell(m)] = in.where(fr)
}
func (in *Interp) noteMapRead(fr *frame, m *mapV) {
	if !in.watch || m == nil || !m.frozen || in.locks > 0 {
		return
	}
	in.plainR[in.mapCell(m)] = in.where(fr)
}
func (in *Interp) mapCell(m *mapV) *value {
	for k, v := range in.side {
		if v == m {
			return k
		}
	}
	c := new(value)
	in.side[c] = m
	return c
}

func (in *Interp) where(fr *frame) string {
	for f := fr; f != nil; f = f.caller {
		if f.info != nil && f.info.repo && f.pos != token.NoPos {
			p := in.P.prog.Fset.Position(f.pos)
			return fmt.Sprintf("%s:%d (%s)", p.Filename, p.Line, f.fn.Name())
		}
	}
	return fr.fn.String()
}

func (in *Interp) race(msg string) {
	in.report("race", msg)
}

// freeze marks everything reachable from v as shared.
func (in *Interp) freeze(v value, seen map[interface{}]bool) {
	switch x := v.(type) {
	case *value:
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		in.freezeCell(x, seen)
	case structV:
		for i := range x {
			in.freezeCell(&x[i], seen)
		}
	case arrayV:
		for i := range x {
			in.freezeCell(&x[i], seen)
		}
	case sliceV:
		full := x[:cap(x)]
		if len(full) > 0 {
			if seen[&full[0]] && in.frozen[&full[0]] && len(full) > 0 && in.frozen[&full[len(full)-1]] {
				return
			}
		}
		for i := range full {
			in.freezeCell(&full[i], seen)
		}
	case iface:
		in.freeze(x.v, seen)
	case *mapV:
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		x.frozen = true
		for _, e := range x.es {
			in.freeze(e.k, seen)
			in.freeze(e.v, seen)
		}
	case *closure:
		if seen[x] {
			return
		}
		seen[x] = true
		for _, e := range x.env {
			in.freeze(e, seen)
		}
	}
}
func (in *Interp) freezeCell(p *value, seen map[interface{}]bool) {
	in.frozen[p] = true
	in.freeze(*p, seen)
}

// ---- builtins ----

func (in *Interp) strLen(s Str) *Term {
	if s.conc() {
		return in.tt.BV(uint64(len(s.s)), 64)
	}
	if !s.hasOpq() {
		return in.tt.BV(uint64(len(s.segs)), 64)
	}
	// the length of a numeral is only known to be between 1 and 24
	n := len(s.segs) - 1
	key := s.segs
	var sb strings.Builder
	for _, g := range key {
		if g.o != nil {
			fmt.Fprintf(&sb, "o%c%d", g.o.kind, g.o.t.id)
		} else {
			fmt.Fprintf(&sb, "b")
		}
	}
	v := in.tt.Var("len:"+sb.String(), SBV(64))
	in.needVar(v)
	c := in.tt.And(in.tt.Cmp(OUle, in.tt.BV(uint64(n+1), 64), v), in.tt.Cmp(OUle, v, in.tt.BV(uint64(24*(n+1)), 64)))
	if known, ok := in.litOf(c); !ok || !known {
		in.assume(c, true)
	}
	return v
}

func (in *Interp) needVar(v *Term) {
	for _, x := range in.pathVars {
		if x == v {
			return
		}
	}
	in.pathVars = append(in.pathVars, v)
}

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []value, call *ssa.CallCommon) value {
	tt := in.tt
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		dst, _ := args[0].(sliceV)
		var add []value
		switch s := args[1].(type) {
		case sliceV:
			add = s
		case Str:
			if s.hasOpq() {
				panic(unsupported{"append of the text of a symbolic number to []byte"})
			}
			for _, g := range s.list(tt) {
				add = append(add, g.b)
			}
		}
		if len(dst)+len(add) <= cap(dst) && len(add) > 0 && in.watch {
			full := dst[:len(dst)+len(add)]
			for i := len(dst); i < len(full); i++ {
				in.noteWrite(fr, &full[i])
			}
		}
		cp := make([]value, len(add))
		for i, v := range add {
			cp[i] = copyVal(v)
		}
		if len(dst)+len(cp) <= cap(dst) {
			full := dst[:len(dst)+len(cp)]
			copy(full[len(dst):], cp)
			return sliceV(full)
		}
		if dst == nil && len(cp) == 0 {
			return sliceV(nil)
		}
		nc := cap(dst) * 2
		if nc < len(dst)+len(cp) {
			nc = len(dst) + len(cp)
		}
		n := make([]value, len(dst)+len(cp), nc)
		copy(n, dst)
		copy(n[len(dst):], cp)
		if nc > len(n) { // fresh zero cells up to the capacity
			full := n[:nc]
			for i := len(n); i < nc; i++ {
				if len(n) > 0 {
					full[i] = zeroLike(tt, n[0])
				}
			}
		}
		// elements were moved: aggregates must not share cells with the old array
		for i := range dst {
			n[i] = copyVal(n[i])
		}
		return sliceV(n)
	case "len":
		switch s := args[0].(type) {
		case Str:
			return in.strLen(s)
		case sliceV:
			return tt.BV(uint64(len(s)), 64)
		case arrayV:
			return tt.BV(uint64(len(s)), 64)
		case *value:
			return tt.BV(uint64(len((*s).(arrayV))), 64)
		case *mapV:
			in.noteMapRead(fr, s)
			return tt.BV(uint64(len(in.mapLive(s))), 64)
		case *chanV:
			return tt.BV(uint64(len(s.buf)), 64)
		}
	case "cap":
		switch s := args[0].(type) {
		case sliceV:
			return tt.BV(uint64(cap(s)), 64)
		case arrayV:
			return tt.BV(uint64(len(s)), 64)
		case *value:
			return tt.BV(uint64(len((*s).(arrayV))), 64)
		case *chanV:
			return tt.BV(uint64(s.cap), 64)
		}
	case "copy":
		dst := args[0].(sliceV)
		var src []value
		switch s := args[1].(type) {
		case sliceV:
			src = s
		case Str:
			for _, g := range s.list(tt) {
				src = append(src, g.b)
			}
		}
		n := len(dst)
		if len(src) < n {
			n = len(src)
		}
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := 0; i < n; i++ {
			if in.watch {
				in.noteWrite(fr, &dst[i])
			}
			storeInto(&dst[i], tmp[i])
		}
		return tt.BV(uint64(n), 64)
	case "delete":
		m := args[0].(*mapV)
		in.noteMapWrite(fr, m)
		in.mapDelete(m, under(call.Args[0].Type()).(*types.Map).Key(), args[1])
		return nil
	case "clear":
		switch s := args[0].(type) {
		case *mapV:
			in.noteMapWrite(fr, s)
			if s != nil {
				s.es = nil
				s.idx = map[string]int{}
			}
		case sliceV:
			et := under(call.Args[0].Type()).(*types.Slice).Elem()
			for i := range s {
				storeInto(&s[i], zero(tt, et))
			}
		}
		return nil
	case "close":
		args[0].(*chanV).closed = true
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		if fr.deferOf != nil && fr.deferOf.pan != nil {
			v := fr.deferOf.pan.v
			fr.deferOf.pan = nil
			return v
		}
		return iface{}
	case "print", "println":
		return nil
	case "min", "max":
		t := b.Type().(*types.Signature).Params().At(0).Type()
		r := args[0]
		for _, x := range args[1:] {
			if a, ok := r.(*Term); ok && (a.sort.k == KF64 || a.sort.k == KF32) {
				y := x.(*Term)
				if b.Name() == "min" {
					r = in.fmin(a, y)
				} else {
					r = tt.FNeg(in.fmin(tt.FNeg(a), tt.FNeg(y)))
				}
				continue
			}
			var c value
			if b.Name() == "min" {
				c = in.binop(token.LSS, t, x, r, t)
			} else {
				c = in.binop(token.GTR, t, x, r, t)
			}
			if a, ok := r.(*Term); ok {
				r = tt.Ite(c.(*Term), x.(*Term), a)
			} else if in.branch(c.(*Term)) {
				r = x
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			in.goPanic("value method called using nil pointer")
		}
		return args[0]
	case "String": // unsafe.String
		p := args[0]
		n := in.concInt(args[1].(*Term), "unsafe.String length")
		if n == 0 {
			return S("")
		}
		if d, ok := p.(*dataPtr); ok {
			var l []seg
			for _, e := range d.s[:n] {
				l = append(l, seg{b: e.(*Term)})
			}
			return mkStr(l)
		}
	case "SliceData":
		return &dataPtr{args[0].(sliceV)}
	case "StringData":
		var l sliceV
		for _, g := range args[0].(Str).list(tt) {
			l = append(l, g.b)
		}
		return &dataPtr{l}
	case "Slice":
		if d, ok := args[0].(*dataPtr); ok {
			n := in.concInt(args[1].(*Term), "unsafe.Slice length")
			return d.s[:n]
		}
	}
	panic(unsupported{"builtin " + b.Name()})
}

type dataPtr struct{ s sliceV }

func (in *Interp) fmin(a, b *Term) *Term {
	tt := in.tt
	nan := tt.FConst(nanVal, a.sort)
	// min(-0,+0) = -0
	z := tt.FConst(0, a.sort)
	bothZero := tt.And(tt.FCmp(OFEq, a, z), tt.FCmp(OFEq, b, z))
	r := tt.Ite(tt.FCmp(OFLt, b, a), b, a)
	negz := tt.FConst(negZero, a.sort)
	r = tt.Ite(tt.And(bothZero, tt.Or(tt.Eq(a, negz), tt.Eq(b, negz))), negz, r)
	return tt.Ite(tt.Or(tt.FIsNaN(a), tt.FIsNaN(b)), nan, r)
}

func zeroLike(tt *TermTab, v value) value {
	switch x := v.(type) {
	case *Term:
		return tt.mk(OConst, x.sort, 0, "")
	case Str:
		return S("")
	case structV:
		r := make(structV, len(x))
		for i := range x {
			r[i] = zeroLike(tt, x[i])
		}
		return r
	case arrayV:
		r := make(arrayV, len(x))
		for i := range x {
			r[i] = zeroLike(tt, x[i])
		}
		return r
	case *value:
		return (*value)(nil)
	case sliceV:
		return sliceV(nil)
	case *mapV:
		return (*mapV)(nil)
	case iface:
		return iface{}
	case *chanV:
		return (*chanV)(nil)
	case *closure, *ssa.Function, *ssa.Builtin, *boundNative, funcNil:
		return funcNil{}
	}
	return nil
}

// termText is a short rendering of a term for logs.
func termText(t *Term, d int) string {
	if t.isConst() || t.op == OVar {
		if t.op == OVar {
			return t.name
		}
		return fmt.Sprintf("%#x", t.val)
	}
	if d == 0 {
		return "."
	}
	r := fmt.Sprintf("(op%d", t.op)
	for _, a := range t.args {
		r += " " + termText(a, d-1)
	}
	return r + ")"
}
