package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var nanVal = math.NaN()
var negZero = math.Copysign(0, -1)

type intrinsic func(fr *frame, args []value) (value, bool)

var intrinsics map[string]intrinsic

func lookupIntrinsic(fn *ssa.Function, name string) intrinsic {
	if f, ok := intrinsics[name]; ok {
		return f
	}
	if strings.HasPrefix(name, "sync/atomic.") || strings.HasPrefix(name, "(*sync/atomic.") || strings.HasPrefix(name, "internal/runtime/atomic.") {
		if f := atomicIntrinsic(fn, name); f != nil {
			return f
		}
	}
	return nil
}

func always(f func(fr *frame, a []value) value) intrinsic {
	return func(fr *frame, a []value) (value, bool) { return f(fr, a), true }
}

func cs(v value) (string, bool) {
	s, ok := v.(Str)
	if !ok || !s.conc() {
		return "", false
	}
	return s.s, true
}
func mustCS(v value, what string) string {
	s, ok := cs(v)
	if !ok {
		panic(unsupported{what + " must be concrete"})
	}
	return s
}
func ci(v value) (int64, bool) {
	t, ok := v.(*Term)
	if !ok || !t.isConst() {
		return 0, false
	}
	return t.sval(), true
}

func (in *Interp) int(n int) *Term   { return in.tt.BV(uint64(int64(n)), 64) }
func (in *Interp) nilErr() value     { return iface{} }
func (in *Interp) mkErr(s Str) value { return in.mkErrPkg(s) }

// mkErrPkg builds an *errors.errorString.
func (in *Interp) mkErrPkg(s Str) value {
	p := in.P.prog.ImportedPackage("errors")
	if p == nil {
		return iface{t: types.Typ[types.String], v: s}
	}
	return in.call(nil, p.Func("New"), []value{s}, nil)
}

func (in *Interp) newInput(name, kind string, s Sort) *Term {
	n := in.names[name]
	in.names[name]++
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	t := in.tt.Var(name+":"+s.k.String()+strconv.Itoa(int(s.w)), s)
	in.pathVars = append(in.pathVars, t)
	in.inputs = append(in.inputs, inputRec{Name: name, Kind: kind, t: t})
	return t
}
func (k Kind) String() string { return [...]string{"b", "v", "d", "f"}[k] }

func (in *Interp) uniq(name string) string {
	n := in.names[name]
	in.names[name]++
	if n > 0 {
		name = fmt.Sprintf("%s#%d", name, n)
	}
	return name
}

func uf1(name string) intrinsic {
	return always(func(fr *frame, a []value) value {
		x := a[0].(*Term)
		if x.isConst() {
			return fr.in.tt.F64(nativeUF(name, []float64{x.f()}))
		}
		return fr.in.tt.UF(name, SF64, x)
	})
}
func uf2(name string) intrinsic {
	return always(func(fr *frame, a []value) value {
		x, y := a[0].(*Term), a[1].(*Term)
		if x.isConst() && y.isConst() {
			return fr.in.tt.F64(nativeUF(name, []float64{x.f(), y.f()}))
		}
		return fr.in.tt.UF(name, SF64, x, y)
	})
}

const symPkg = "verif/harness/sym."

func init() {
	nop := always(func(fr *frame, a []value) value { return zeroResult(fr.in.tt, fr.fn) })
	m := map[string]intrinsic{}
	intrinsics = m

	// ---- harness API ----
	m[symPkg+"Float64"] = always(func(fr *frame, a []value) value {
		return fr.in.newInput(mustCS(a[0], "input name"), "f64", SF64)
	})
	m[symPkg+"Float32"] = always(func(fr *frame, a []value) value {
		return fr.in.newInput(mustCS(a[0], "input name"), "f32", SF32)
	})
	m[symPkg+"Int64"] = always(func(fr *frame, a []value) value {
		return fr.in.newInput(mustCS(a[0], "input name"), "i64", SBV(64))
	})
	m[symPkg+"Bool"] = always(func(fr *frame, a []value) value {
		return fr.in.newInput(mustCS(a[0], "input name"), "bool", SBool)
	})
	m[symPkg+"Byte"] = always(func(fr *frame, a []value) value {
		return fr.in.newInput(mustCS(a[0], "input name"), "u8", SBV(8))
	})
	m[symPkg+"Choose"] = always(func(fr *frame, a []value) value {
		in := fr.in
		n, _ := ci(a[1])
		c := in.choose(int(n))
		in.inputs = append(in.inputs, inputRec{Name: in.uniq(mustCS(a[0], "input name")), Kind: "choose", c: c})
		return in.int(c)
	})
	m[symPkg+"Bound"] = always(func(fr *frame, a []value) value {
		if fr.in.ex.thorough {
			return a[1]
		}
		return a[0]
	})
	m[symPkg+"Assume"] = always(func(fr *frame, a []value) value {
		in := fr.in
		c := in.simp(a[0].(*Term))
		if c.isFalse() {
			panic(abortPath{"assume"})
		}
		in.assume(c, true)
		return nil
	})
	m[symPkg+"Assert"] = always(func(fr *frame, a []value) value {
		fr.in.assertTerm(a[0].(*Term), mustCS(a[1], "assertion message"))
		return nil
	})
	m[symPkg+"AssertClose"] = always(func(fr *frame, a []value) value {
		fr.in.assertClose(a[0].(*Term), a[1].(*Term), mustCS(a[2], "assertion message"))
		return nil
	})
	m[symPkg+"Fail"] = always(func(fr *frame, a []value) value {
		fr.in.assertTerm(fr.in.tt.F, mustCS(a[0], "assertion message"))
		return nil
	})
	m[symPkg+"And"] = always(func(fr *frame, a []value) value {
		r := fr.in.tt.T
		for _, x := range a[0].(sliceV) {
			r = fr.in.tt.And(r, x.(*Term))
		}
		return r
	})
	m[symPkg+"Or"] = always(func(fr *frame, a []value) value {
		r := fr.in.tt.F
		for _, x := range a[0].(sliceV) {
			r = fr.in.tt.Or(r, x.(*Term))
		}
		return r
	})
	m[symPkg+"Implies"] = always(func(fr *frame, a []value) value {
		return fr.in.tt.Or(fr.in.tt.Not(a[0].(*Term)), a[1].(*Term))
	})
	ite := always(func(fr *frame, a []value) value {
		return fr.in.tt.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	})
	m[symPkg+"IteF"] = ite
	m[symPkg+"IteI"] = ite
	m[symPkg+"IteB"] = ite
	m[symPkg+"SameF"] = always(func(fr *frame, a []value) value {
		tt := fr.in.tt
		x, y := a[0].(*Term), a[1].(*Term)
		if x == y {
			return tt.T
		}
		return tt.Or(tt.FCmp(OFEq, x, y), tt.And(tt.FIsNaN(x), tt.FIsNaN(y)))
	})
	m[symPkg+"Finite"] = always(func(fr *frame, a []value) value {
		tt := fr.in.tt
		x := a[0].(*Term)
		return tt.And(tt.Not(tt.FIsNaN(x)), tt.Not(tt.FIsInf(x)))
	})
	m[symPkg+"Reach"] = always(func(fr *frame, a []value) value {
		fr.in.reached = append(fr.in.reached, mustCS(a[0], "reach name"))
		return nil
	})
	m[symPkg+"Observe"] = always(func(fr *frame, a []value) value {
		v := a[1].(iface)
		fr.in.obs = append(fr.in.obs, obsRec{name: mustCS(a[0], "name"), v: copyVal(v.v), t: v.t})
		return nil
	})
	m[symPkg+"PutIf"] = always(func(fr *frame, a []value) value {
		in := fr.in
		mp := a[0].(*mapV)
		c := in.simp(a[3].(*Term))
		if c.isFalse() {
			return nil
		}
		k := a[1]
		s := mustCS(k, "PutIf key")
		if _, ok := mp.idx[s]; ok {
			panic(unsupported{"PutIf on an existing key"})
		}
		mp.idx[s] = len(mp.es)
		mp.es = append(mp.es, &mapEntry{k: k, v: copyVal(a[2]), present: c})
		return nil
	})
	m[symPkg+"PermuteMaps"] = always(func(fr *frame, a []value) value {
		fr.in.permute = true
		return nil
	})
	m[symPkg+"Freeze"] = always(func(fr *frame, a []value) value {
		in := fr.in
		seen := map[interface{}]bool{}
		for _, x := range a[0].(sliceV) {
			in.freeze(x, seen)
		}
		// package state of the code under test
		for g, c := range in.globals {
			if isRepoPkg(g.Pkg.Pkg.Path()) {
				in.freezeCell(c, seen)
			}
		}
		return nil
	})
	m[symPkg+"Concurrently"] = always(func(fr *frame, a []value) value {
		in := fr.in
		// initialise lazily created package state before watching
		for _, p := range in.P.pkgs {
			if isRepoPkg(p.Pkg.Path()) {
				for _, mb := range p.Members {
					if g, ok := mb.(*ssa.Global); ok && g.Name() != "init$guard" {
						in.freezeCell(in.global(g), map[interface{}]bool{})
					}
				}
			}
		}
		in.watch = true
		for _, f := range a[0].(sliceV) {
			in.callValue(fr, f, nil, nil)
		}
		in.watch = false
		for p, w := range in.lockedW {
			if r, ok := in.plainR[p]; ok {
				in.race("shared memory written under a lock at " + w + " is read without one at " + r)
			}
		}
		return nil
	})
	m[symPkg+"Fill"] = always(func(fr *frame, a []value) value {
		dst := a[0].(iface)
		var vals []iface
		for _, v := range a[1].(sliceV) {
			vals = append(vals, v.(iface))
		}
		st := under(dst.t).(*types.Pointer).Elem()
		return fr.in.tt.BV(uint64(fillStruct(under(st).(*types.Struct), (*fr.in.ptr(dst.v)).(structV), vals)), 64)
	})
	m[symPkg+"Strip"] = always(func(fr *frame, a []value) value {
		dst := a[0].(iface)
		fr.in.strip(dst.t, dst.v, mustCS(a[1], "field name"), 0)
		return nil
	})
	m[symPkg+"ReadFile"] = always(func(fr *frame, a []value) value {
		b, err := os.ReadFile(mustCS(a[0], "file name"))
		if err != nil {
			panic(unsupported{err.Error()})
		}
		return S(string(b))
	})
	m[symPkg+"DecodeXML"] = always(xmlDecodeTree)
	m[symPkg+"DecodePart"] = always(xmlDecodePart)
	m[symPkg+"Tokens"] = always(xmlTokens)

	// ---- math ----
	for _, n := range []string{"exp", "log", "log1p", "expm1", "exp2", "log2", "log10", "atan", "tan", "tanh", "sin", "cos"} {
		m["math."+strings.ToUpper(n[:1])+n[1:]] = uf1(n)
		m["math."+n] = uf1(n)
	}
	m["math.Pow"] = always(func(fr *frame, a []value) value {
		x, y := a[0].(*Term), a[1].(*Term)
		tt := fr.in.tt
		if x.isConst() && y.isConst() {
			return tt.F64(math.Pow(x.f(), y.f()))
		}
		if y.isConst() && y.f() == 1 {
			return x
		}
		if y.isConst() && y.f() == 0 {
			return tt.F64(1)
		}
		return tt.UF("pow", SF64, x, y)
	})
	m["math.Atan2"] = uf2("atan2")
	m["math.Mod"] = uf2("mod")
	ff := func(f func(tt *TermTab, x *Term) *Term) intrinsic {
		return always(func(fr *frame, a []value) value { return f(fr.in.tt, a[0].(*Term)) })
	}
	m["math.Sqrt"] = ff(func(tt *TermTab, x *Term) *Term { return tt.FSqrt(x) })
	m["math.sqrt"] = m["math.Sqrt"]
	m["math.Abs"] = ff(func(tt *TermTab, x *Term) *Term { return tt.FAbs(x) })
	m["math.Floor"] = ff(func(tt *TermTab, x *Term) *Term { return tt.FRound(3, x) })
	m["math.Ceil"] = ff(func(tt *TermTab, x *Term) *Term { return tt.FRound(2, x) })
	m["math.Trunc"] = ff(func(tt *TermTab, x *Term) *Term { return tt.FRound(4, x) })
	m["math.Round"] = ff(func(tt *TermTab, x *Term) *Term { return tt.FRound(1, x) })
	m["math.RoundToEven"] = ff(func(tt *TermTab, x *Term) *Term { return tt.FRound(0, x) })
	m["math.IsNaN"] = ff(func(tt *TermTab, x *Term) *Term { return tt.FIsNaN(x) })
	m["math.NaN"] = always(func(fr *frame, a []value) value { return fr.in.tt.F64(nanVal) })
	m["math.Inf"] = always(func(fr *frame, a []value) value {
		n, ok := ci(a[0])
		if !ok {
			panic(unsupported{"math.Inf of a symbolic sign"})
		}
		return fr.in.tt.F64(math.Inf(int(n)))
	})
	m["math.IsInf"] = always(func(fr *frame, a []value) value {
		tt := fr.in.tt
		x := a[0].(*Term)
		n, ok := ci(a[1])
		if !ok {
			panic(unsupported{"math.IsInf of a symbolic sign"})
		}
		switch {
		case n > 0:
			return tt.FCmp(OFEq, x, tt.F64(math.Inf(1)))
		case n < 0:
			return tt.FCmp(OFEq, x, tt.F64(math.Inf(-1)))
		}
		return tt.FIsInf(x)
	})
	m["math.Float64bits"] = always(func(fr *frame, a []value) value {
		in := fr.in
		x := a[0].(*Term)
		if x.isConst() {
			return in.tt.BV(x.val, 64)
		}
		if x.op == OBVtoF {
			return x.args[0]
		}
		v := in.tt.Var(fmt.Sprintf("bits:%d", x.id), SBV(64))
		in.needVar(v)
		in.assume(in.tt.Eq(in.tt.BVtoF(v, SF64), x), true)
		return v
	})
	m["math.Float64frombits"] = always(func(fr *frame, a []value) value { return fr.in.tt.BVtoF(a[0].(*Term), SF64) })
	m["math.Float32frombits"] = always(func(fr *frame, a []value) value { return fr.in.tt.BVtoF(a[0].(*Term), SF32) })
	m["math.Float32bits"] = always(func(fr *frame, a []value) value {
		in := fr.in
		x := a[0].(*Term)
		if x.isConst() {
			return in.tt.BV(x.val, 32)
		}
		v := in.tt.Var(fmt.Sprintf("bits:%d", x.id), SBV(32))
		in.needVar(v)
		in.assume(in.tt.Eq(in.tt.BVtoF(v, SF32), x), true)
		return v
	})
	for _, n := range []string{"Float64bits", "Float32bits", "Float64frombits", "Float32frombits"} {
		m["internal/strconv."+strings.ToLower(n[:1])+n[1:]] = m["math."+n]
	}
	m["math.Signbit"] = always(func(fr *frame, a []value) value {
		tt := fr.in.tt
		x := a[0].(*Term)
		return tt.Or(tt.FCmp(OFLt, x, tt.F64(0)), tt.Eq(x, tt.F64(negZero)))
	})
	m["math.Min"] = always(func(fr *frame, a []value) value { return fr.in.fmin(a[0].(*Term), a[1].(*Term)) })
	m["math.Max"] = always(func(fr *frame, a []value) value {
		tt := fr.in.tt
		return tt.FNeg(fr.in.fmin(tt.FNeg(a[0].(*Term)), tt.FNeg(a[1].(*Term))))
	})

	// ---- strconv ----
	m["strconv.ParseFloat"] = func(fr *frame, a []value) (value, bool) {
		in, tt := fr.in, fr.in.tt
		bits, _ := ci(a[1])
		s := a[0].(Str)
		if s.conc() {
			f, err := strconv.ParseFloat(s.s, int(bits))
			if err == nil {
				return tuple{tt.F64(f), iface{}}, true
			}
			return nil, false
		}
		if len(s.segs) == 1 && s.segs[0].o != nil {
			o := s.segs[0].o
			var x *Term
			switch {
			case o.kind == 'f':
				x = o.t
			case o.kind == 'd':
				x = tt.StoF(o.t, SF64)
				if bits == 32 {
					return tuple{tt.FtoF(tt.StoF(o.t, SF32), SF64), iface{}}, true
				}
			case o.kind == '4' && bits == 32:
				return tuple{tt.FtoF(o.t, SF64), iface{}}, true
			case o.kind == 'b':
				return in.call(fr.caller, fr.fn, []value{S("true"), a[1]}, nil), true
			default:
				panic(unsupported{"64-bit parse of the shortest text of a float32"})
			}
			if bits == 32 {
				y := tt.FtoF(tt.FtoF(x, SF32), SF64)
				if in.branch(tt.And(tt.FIsInf(y), tt.Not(tt.FIsInf(x)))) {
					return in.call(fr.caller, fr.fn, []value{S("1e300"), a[1]}, nil), true
				}
				return tuple{y, iface{}}, true
			}
			return tuple{x, iface{}}, true
		}
		if s.hasOpq() {
			panic(unsupported{"ParseFloat of composed text"})
		}
		return nil, false
	}
	parseInt := func(signed bool) intrinsic {
		return func(fr *frame, a []value) (value, bool) {
			in, tt := fr.in, fr.in.tt
			s := a[0].(Str)
			base, okb := ci(a[1])
			bits, okc := ci(a[2])
			if s.conc() && okb && okc {
				if signed {
					n, err := strconv.ParseInt(s.s, int(base), int(bits))
					if err == nil {
						return tuple{tt.BV(uint64(n), 64), iface{}}, true
					}
				} else {
					n, err := strconv.ParseUint(s.s, int(base), int(bits))
					if err == nil {
						return tuple{tt.BV(n, 64), iface{}}, true
					}
				}
				return nil, false
			}
			if len(s.segs) == 1 && s.segs[0].o != nil && base == 10 {
				o := s.segs[0].o
				var n *Term
				switch o.kind {
				case 'd':
					n = o.t
				case 'f':
					ok := tt.And(tt.FCmp(OFEq, tt.FRound(4, o.t), o.t), tt.And(tt.FCmp(OFLt, tt.F64(-1e6), o.t), tt.FCmp(OFLt, o.t, tt.F64(1e6))))
					if !in.branch(ok) { // a fraction or an exponent in the text
						return in.call(fr.caller, fr.fn, []value{S("1.5"), a[1], a[2]}, nil), true
					}
					n = tt.FtoI(OFtoS, o.t, 64)
				case 'b':
					return in.call(fr.caller, fr.fn, []value{S("x"), a[1], a[2]}, nil), true
				default:
					panic(unsupported{"ParseInt of a float32 text"})
				}
				if !signed {
					if in.branch(tt.Cmp(OSlt, n, tt.BV(0, 64))) {
						return in.call(fr.caller, fr.fn, []value{S("-1"), a[1], a[2]}, nil), true
					}
				}
				if bits != 0 && bits < 64 {
					var ok *Term
					if signed {
						ok = tt.And(tt.Cmp(OSle, tt.BV(uint64(int64(-1)<<(uint(bits)-1)), 64), n), tt.Cmp(OSlt, n, tt.BV(1<<(uint(bits)-1), 64)))
					} else {
						ok = tt.Cmp(OUlt, n, tt.BV(1<<uint(bits), 64))
					}
					if !in.branch(ok) {
						return in.call(fr.caller, fr.fn, []value{S("99999999999999999999"), a[1], a[2]}, nil), true
					}
				}
				return tuple{n, iface{}}, true
			}
			if s.hasOpq() {
				panic(unsupported{"ParseInt of composed text"})
			}
			return nil, false
		}
	}
	m["strconv.ParseInt"] = parseInt(true)
	m["strconv.ParseUint"] = parseInt(false)
	m["strconv.Atoi"] = func(fr *frame, a []value) (value, bool) {
		in := fr.in
		s := a[0].(Str)
		if s.conc() {
			n, err := strconv.Atoi(s.s)
			if err == nil {
				return tuple{in.int(n), iface{}}, true
			}
			return nil, false
		}
		if s.hasOpq() {
			p := in.P.prog.ImportedPackage("strconv").Func("ParseInt")
			return in.call(fr.caller, p, []value{s, in.int(10), in.int(0)}, nil), true
		}
		return nil, false
	}
	m["strconv.ParseBool"] = func(fr *frame, a []value) (value, bool) {
		in, tt := fr.in, fr.in.tt
		s := a[0].(Str)
		if len(s.segs) == 1 && s.segs[0].o != nil {
			o := s.segs[0].o
			if o.kind == 'b' {
				return tuple{o.t, iface{}}, true
			}
			for _, c := range []struct {
				s string
				b *Term
			}{{"1", tt.T}, {"0", tt.F}} {
				if in.branch(tt.opqEqConst(o, c.s)) {
					return tuple{c.b, iface{}}, true
				}
			}
			return in.call(fr.caller, fr.fn, []value{S("x")}, nil), true
		}
		return nil, false
	}
	m["strconv.FormatFloat"] = func(fr *frame, a []value) (value, bool) {
		f := a[0].(*Term)
		fm, _ := ci(a[1])
		pr, _ := ci(a[2])
		bs, _ := ci(a[3])
		if f.isConst() {
			return S(strconv.FormatFloat(f.f(), byte(fm), int(pr), int(bs))), true
		}
		if byte(fm) == 'g' && pr == -1 && bs == 64 {
			return mkOpq('f', f), true
		}
		if byte(fm) == 'g' && pr == -1 && bs == 32 {
			if f.op == OFtoF && f.args[0].sort == SF32 {
				return mkOpq('4', f.args[0]), true
			}
			return mkOpq('4', fr.in.tt.FtoF(f, SF32)), true
		}
		panic(unsupported{"FormatFloat of a symbolic number with format " + string(rune(fm))})
	}
	m["strconv.FormatInt"] = func(fr *frame, a []value) (value, bool) {
		n := a[0].(*Term)
		b, _ := ci(a[1])
		if n.isConst() {
			return S(strconv.FormatInt(n.sval(), int(b))), true
		}
		if b == 10 {
			return mkOpq('d', n), true
		}
		panic(unsupported{"FormatInt base"})
	}
	m["strconv.Itoa"] = always(func(fr *frame, a []value) value { return mkOpq('d', a[0].(*Term)) })
	m["strconv.FormatUint"] = func(fr *frame, a []value) (value, bool) {
		n := a[0].(*Term)
		b, _ := ci(a[1])
		if n.isConst() {
			return S(strconv.FormatUint(n.val, int(b))), true
		}
		if b == 10 && fr.in.branch(fr.in.tt.Cmp(OSle, fr.in.tt.BV(0, 64), n)) {
			return mkOpq('d', n), true
		}
		panic(unsupported{"FormatUint"})
	}
	m["strconv.FormatBool"] = always(func(fr *frame, a []value) value { return mkOpq('b', a[0].(*Term)) })
	m["strconv.Quote"] = always(func(fr *frame, a []value) value {
		s := a[0].(Str)
		if s.conc() {
			return S(strconv.Quote(s.s))
		}
		return strConcat(fr.in.tt, strConcat(fr.in.tt, S(`"`), s), S(`"`))
	})
	m["strconv.cloneString"] = always(func(fr *frame, a []value) value { return a[0] })
	m["internal/stringslite.Clone"] = m["strconv.cloneString"]
	m["strings.Clone"] = m["strconv.cloneString"]

	// ---- strings ----
	b1 := func(f func(s, t string) value) intrinsic {
		return func(fr *frame, a []value) (value, bool) {
			s, ok1 := cs(a[0])
			t, ok2 := cs(a[1])
			if ok1 && ok2 {
				return f(s, t), true
			}
			return nil, false
		}
	}
	_ = b1
	m["strings.HasPrefix"] = func(fr *frame, a []value) (value, bool) {
		in := fr.in
		s, p := a[0].(Str), a[1].(Str)
		if s.conc() && p.conc() {
			return in.tt.Bool(strings.HasPrefix(s.s, p.s)), true
		}
		l := s.list(in.tt)
		q := p.list(in.tt)
		r := in.tt.T
		for i, g := range q {
			if i >= len(l) {
				if s.hasOpq() {
					panic(unsupported{"HasPrefix on composed text"})
				}
				return in.tt.F, true
			}
			if g.o != nil || l[i].o != nil {
				if l[i].o != nil && g.o == nil && g.b.isConst() && !strings.ContainsRune(numeralChars, rune(g.b.val)) {
					return in.tt.F, true
				}
				panic(unsupported{"HasPrefix on composed text"})
			}
			r = in.tt.And(r, in.tt.Eq(l[i].b, g.b))
		}
		return r, true
	}
	m["strings.TrimSpace"] = func(fr *frame, a []value) (value, bool) {
		s := a[0].(Str)
		if s.conc() {
			return S(strings.TrimSpace(s.s)), true
		}
		if s.hasOpq() {
			l := s.segs
			ws := func(g seg) bool {
				return g.o == nil && g.b.isConst() && strings.ContainsRune(" \t\n\r\v\f", rune(g.b.val))
			}
			for len(l) > 0 && ws(l[0]) {
				l = l[1:]
			}
			for len(l) > 0 && ws(l[len(l)-1]) {
				l = l[:len(l)-1]
			}
			for _, g := range []seg{l[0], l[len(l)-1]} {
				if g.o == nil && !g.b.isConst() {
					panic(unsupported{"TrimSpace on composed text"})
				}
			}
			return mkStr(l), true
		}
		return nil, false
	}
	bld := func(f func(in *Interp, p *value, cur Str, a []value) (Str, value)) intrinsic {
		return always(func(fr *frame, a []value) value {
			p := fr.in.ptr(a[0])
			n, r := f(fr.in, p, fr.in.builders[p], a)
			fr.in.builders[p] = n
			return r
		})
	}
	m["(*strings.Builder).WriteString"] = bld(func(in *Interp, p *value, c Str, a []value) (Str, value) {
		s := a[1].(Str)
		return strConcat(in.tt, c, s), tuple{in.strLenQuiet(s), iface{}}
	})
	m["(*strings.Builder).WriteByte"] = bld(func(in *Interp, p *value, c Str, a []value) (Str, value) {
		return strConcat(in.tt, c, mkStr([]seg{{b: a[1].(*Term)}})), iface{}
	})
	m["(*strings.Builder).WriteRune"] = bld(func(in *Interp, p *value, c Str, a []value) (Str, value) {
		l := in.encodeRune(a[1].(*Term))
		return strConcat(in.tt, c, mkStr(l)), tuple{in.int(len(l)), iface{}}
	})
	m["(*strings.Builder).Write"] = bld(func(in *Interp, p *value, c Str, a []value) (Str, value) {
		var l []seg
		for _, x := range a[1].(sliceV) {
			l = append(l, seg{b: x.(*Term)})
		}
		return strConcat(in.tt, c, mkStr(l)), tuple{in.int(len(l)), iface{}}
	})
	m["(*strings.Builder).String"] = bld(func(in *Interp, p *value, c Str, a []value) (Str, value) { return c, c })
	m["(*strings.Builder).Len"] = bld(func(in *Interp, p *value, c Str, a []value) (Str, value) { return c, in.strLen(c) })
	m["(*strings.Builder).Cap"] = m["(*strings.Builder).Len"]
	m["(*strings.Builder).Reset"] = bld(func(in *Interp, p *value, c Str, a []value) (Str, value) { return S(""), nil })
	m["(*strings.Builder).Grow"] = bld(func(in *Interp, p *value, c Str, a []value) (Str, value) { return c, nil })

	// internal/bytealg
	segsOf := func(in *Interp, v value) []*Term {
		var r []*Term
		switch x := v.(type) {
		case sliceV:
			for _, e := range x {
				r = append(r, e.(*Term))
			}
		case Str:
			if x.hasOpq() {
				panic(unsupported{"byte search in the text of a symbolic number"})
			}
			for _, g := range x.list(in.tt) {
				r = append(r, g.b)
			}
		}
		return r
	}
	indexByte := always(func(fr *frame, a []value) value {
		in := fr.in
		c := a[1].(*Term)
		if s, ok := a[0].(Str); ok && s.hasOpq() && c.isConst() && !strings.ContainsRune(numeralChars, rune(c.val)) {
			// numerals cannot contain c
			for i, g := range s.segs {
				if g.o == nil && in.branch(in.tt.Eq(g.b, c)) {
					for _, h := range s.segs[:i] {
						if h.o != nil {
							panic(unsupported{"position after the text of a symbolic number"})
						}
					}
					return in.int(i)
				}
			}
			return in.int(-1)
		}
		for i, b := range segsOf(in, a[0]) {
			if in.branch(in.tt.Eq(b, c)) {
				return in.int(i)
			}
		}
		return in.int(-1)
	})
	m["internal/bytealg.IndexByte"] = indexByte
	m["internal/bytealg.IndexByteString"] = indexByte
	lastIndexByte := always(func(fr *frame, a []value) value {
		in := fr.in
		l := segsOf(in, a[0])
		for i := len(l) - 1; i >= 0; i-- {
			if in.branch(in.tt.Eq(l[i], a[1].(*Term))) {
				return in.int(i)
			}
		}
		return in.int(-1)
	})
	m["internal/bytealg.LastIndexByte"] = lastIndexByte
	m["internal/bytealg.LastIndexByteString"] = lastIndexByte
	count := always(func(fr *frame, a []value) value {
		in := fr.in
		n := 0
		for _, b := range segsOf(in, a[0]) {
			if in.branch(in.tt.Eq(b, a[1].(*Term))) {
				n++
			}
		}
		return in.int(n)
	})
	m["internal/bytealg.Count"] = count
	m["internal/bytealg.CountString"] = count
	m["internal/bytealg.Equal"] = always(func(fr *frame, a []value) value {
		x, y := segsOf(fr.in, a[0]), segsOf(fr.in, a[1])
		if len(x) != len(y) {
			return fr.in.tt.F
		}
		r := fr.in.tt.T
		for i := range x {
			r = fr.in.tt.And(r, fr.in.tt.Eq(x[i], y[i]))
		}
		return r
	})
	m["bytes.Equal"] = m["internal/bytealg.Equal"]
	indexStr := always(func(fr *frame, a []value) value {
		in := fr.in
		x, y := segsOf(in, a[0]), segsOf(in, a[1])
		for i := 0; i+len(y) <= len(x); i++ {
			r := in.tt.T
			for j := range y {
				r = in.tt.And(r, in.tt.Eq(x[i+j], y[j]))
			}
			if in.branch(r) {
				return in.int(i)
			}
		}
		return in.int(-1)
	})
	m["internal/bytealg.Index"] = indexStr
	m["internal/bytealg.IndexString"] = indexStr
	m["strings.Index"] = indexStr
	m["bytes.Index"] = indexStr
	m["internal/bytealg.CompareString"] = always(func(fr *frame, a []value) value {
		in := fr.in
		x, y := a[0].(Str), a[1].(Str)
		if in.branch(in.tt.strEq(x, y)) {
			return in.int(0)
		}
		if in.branch(in.tt.strLess(x, y)) {
			return in.int(-1)
		}
		return in.int(1)
	})
	m["internal/bytealg.MakeNoZero"] = always(func(fr *frame, a []value) value {
		n := fr.in.concInt(a[0].(*Term), "MakeNoZero")
		s := make(sliceV, n)
		for i := range s {
			s[i] = fr.in.tt.BV(0, 8)
		}
		return s
	})

	// ---- fmt ----
	m["fmt.Sprintf"] = always(func(fr *frame, a []value) value {
		return fr.in.sprintf(fr, a[0].(Str), a[1].(sliceV))
	})
	m["fmt.Sprint"] = always(func(fr *frame, a []value) value { return fr.in.sprint(fr, a[0].(sliceV), false) })
	m["fmt.Sprintln"] = always(func(fr *frame, a []value) value { return fr.in.sprint(fr, a[0].(sliceV), true) })
	m["fmt.Errorf"] = always(func(fr *frame, a []value) value {
		in := fr.in
		f := mustCS(a[0], "format")
		args := a[1].(sliceV)
		s := in.sprintf(fr, a[0].(Str), args)
		if strings.Contains(f, "%w") {
			n := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] == '%' {
					if f[i+1] == 'w' && n < len(args) {
						we := in.P.prog.ImportedPackage("fmt").Members["wrapError"].(*ssa.Type)
						var v value = structV{s, args[n]}
						return iface{t: types.NewPointer(we.Type()), v: &v}
					}
					if f[i+1] != '%' {
						n++
					}
					i++
				}
			}
		}
		return in.mkErr(s)
	})
	for _, n := range []string{"Print", "Printf", "Println", "Fprint", "Fprintf", "Fprintln"} {
		m["fmt."+n] = nop
	}
	for _, n := range []string{"Print", "Printf", "Println"} {
		m["log."+n] = nop
	}

	// ---- errors, runtime ----
	m["runtime.Callers"] = nop
	m["runtime.Caller"] = nop
	m["runtime.GC"] = nop
	m["runtime.Gosched"] = nop
	m["runtime.KeepAlive"] = nop
	m["runtime.SetFinalizer"] = nop
	m["runtime.NumGoroutine"] = always(func(fr *frame, a []value) value { return fr.in.int(1) })
	m["runtime.GOMAXPROCS"] = m["runtime.NumGoroutine"]
	m["runtime.NumCPU"] = m["runtime.NumGoroutine"]
	m["github.com/pkg/errors.callers"] = always(func(fr *frame, a []value) value {
		var v value = sliceV(nil)
		return &v
	})
	m["errors.Is"] = always(func(fr *frame, a []value) value {
		in := fr.in
		e, _ := a[0].(iface)
		tgt := a[1].(iface)
		for n := 0; n < 50; n++ {
			if e.t == nil || tgt.t == nil {
				return in.tt.Bool(e.t == nil && tgt.t == nil)
			}
			if types.Comparable(tgt.t) && types.Identical(e.t, tgt.t) && in.branch(in.eq(e.t, e.v, tgt.v)) {
				return in.tt.T
			}
			mth := in.findMethod(e.t, "Unwrap")
			if mth == nil {
				return in.tt.F
			}
			u, ok := in.call(fr, mth, []value{copyVal(e.v)}, nil).(iface)
			if !ok {
				panic(unsupported{"errors.Is over a list of errors"})
			}
			e = u
			if e.t == nil {
				return in.tt.F
			}
		}
		return in.tt.F
	})
	m["internal/godebug.setUpdate"] = nop
	m["internal/godebug.(*Setting).Value"] = nop
	m["(*internal/godebug.Setting).Value"] = always(func(fr *frame, a []value) value { return S("") })
	m["(*internal/godebug.Setting).IncNonDefault"] = nop
	m["internal/godebug.New"] = always(func(fr *frame, a []value) value {
		v := zero(fr.in.tt, under(fr.fn.Signature.Results().At(0).Type()).(*types.Pointer).Elem())
		return &v
	})
	m["internal/race.Acquire"] = nop
	m["internal/race.Release"] = nop
	m["internal/race.ReleaseMerge"] = nop
	m["internal/race.Enable"] = nop
	m["internal/race.Disable"] = nop
	m["internal/race.Read"] = nop
	m["internal/race.Write"] = nop

	// ---- sync ----
	lock := always(func(fr *frame, a []value) value { fr.in.ptr(a[0]); fr.in.locks++; return nil })
	unlock := always(func(fr *frame, a []value) value {
		fr.in.ptr(a[0])
		if fr.in.locks == 0 {
			panic(unsupported{"unlock of an unlocked mutex"})
		}
		fr.in.locks--
		return nil
	})
	for _, t := range []string{"Mutex", "RWMutex"} {
		m["(*sync."+t+").Lock"] = lock
		m["(*sync."+t+").Unlock"] = unlock
		m["(*sync."+t+").TryLock"] = always(func(fr *frame, a []value) value { fr.in.locks++; return fr.in.tt.T })
	}
	m["(*sync.RWMutex).RLock"] = lock
	m["(*sync.RWMutex).RUnlock"] = unlock
	m["(*sync.Once).Do"] = always(func(fr *frame, a []value) value {
		in := fr.in
		p := in.ptr(a[0])
		if in.side[p] == nil {
			in.side[p] = true
			in.locks++
			in.callValue(fr, a[1], nil, nil)
			in.locks--
		}
		return nil
	})
	m["(*sync.WaitGroup).Add"] = nop
	m["(*sync.WaitGroup).Done"] = nop
	m["(*sync.WaitGroup).Wait"] = nop
	m["(*sync.WaitGroup).Go"] = always(func(fr *frame, a []value) value { fr.in.spawn(fr, a[1], nil); return nil })
	m["(*sync.Pool).Get"] = always(func(fr *frame, a []value) value {
		in := fr.in
		p := in.ptr(a[0])
		if l, ok := in.side[p].([]value); ok && len(l) > 0 {
			in.side[p] = l[:len(l)-1]
			return l[len(l)-1]
		}
		st := (*p).(structV)
		pt := under(fr.fn.Signature.Recv().Type()).(*types.Pointer).Elem()
		su := under(pt).(*types.Struct)
		for i := 0; i < su.NumFields(); i++ {
			if su.Field(i).Name() == "New" {
				if _, n := st[i].(funcNil); !n {
					return in.callValue(fr, st[i], nil, nil)
				}
			}
		}
		return iface{}
	})
	m["(*sync.Pool).Put"] = always(func(fr *frame, a []value) value {
		in := fr.in
		p := in.ptr(a[0])
		l, _ := in.side[p].([]value)
		in.side[p] = append(l, a[1])
		return nil
	})
	anyT := types.NewInterfaceType(nil, nil)
	sm := func(fr *frame, a []value) *mapV {
		p := fr.in.ptr(a[0])
		if fr.in.smaps[p] == nil {
			fr.in.smaps[p] = fr.in.newMap()
		}
		return fr.in.smaps[p]
	}
	m["(*sync.Map).Load"] = always(func(fr *frame, a []value) value {
		e := fr.in.mapFind(sm(fr, a), anyT, a[1])
		if e == nil {
			return tuple{iface{}, fr.in.tt.F}
		}
		return tuple{e.v, fr.in.tt.T}
	})
	m["(*sync.Map).Store"] = always(func(fr *frame, a []value) value {
		fr.in.mapPut(sm(fr, a), anyT, a[1], a[2], fr.in.tt.T)
		if fr.in.watch {
			fr.in.freeze(a[2], map[interface{}]bool{})
		}
		return nil
	})
	m["(*sync.Map).LoadOrStore"] = always(func(fr *frame, a []value) value {
		e := fr.in.mapFind(sm(fr, a), anyT, a[1])
		if e == nil {
			fr.in.mapPut(sm(fr, a), anyT, a[1], a[2], fr.in.tt.T)
			if fr.in.watch {
				fr.in.freeze(a[2], map[interface{}]bool{})
			}
			return tuple{a[2], fr.in.tt.F}
		}
		return tuple{e.v, fr.in.tt.T}
	})
	m["(*sync.Map).Delete"] = always(func(fr *frame, a []value) value {
		fr.in.mapDelete(sm(fr, a), anyT, a[1])
		return nil
	})
	m["(*sync.Map).Range"] = always(func(fr *frame, a []value) value {
		for _, e := range fr.in.mapLive(sm(fr, a)) {
			if !fr.in.branch(fr.in.callValue(fr, a[1], []value{e.k, e.v}, nil).(*Term)) {
				break
			}
		}
		return nil
	})

	// ---- sort ----
	srt := func(fr *frame, a []value) value {
		in := fr.in
		s := a[0].(iface).v.(sliceV)
		// insertion sort on the live slice (stable)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := in.callValue(fr, a[1], []value{in.int(j), in.int(j - 1)}, nil)
				if !in.branch(r.(*Term)) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				storeInto(&s[j], y)
				storeInto(&s[j-1], x)
			}
		}
		return nil
	}
	m["sort.Slice"] = always(srt)
	m["sort.SliceStable"] = always(srt)

	// ---- reflection-based defaults ----
	m["github.com/mcuadros/go-defaults.SetDefaults"] = always(func(fr *frame, a []value) value {
		v := a[0].(iface)
		p, ok := v.v.(*value)
		if !ok || p == nil {
			panic(unsupported{"SetDefaults of a non-pointer"})
		}
		fr.in.setDefaults(under(v.t).(*types.Pointer).Elem(), p)
		return nil
	})
	m["reflect.TypeOf"] = always(func(fr *frame, a []value) value { panic(unsupported{"reflection"}) })
	m["reflect.ValueOf"] = m["reflect.TypeOf"]
	m["reflect.DeepEqual"] = always(func(fr *frame, a []value) value {
		return fr.in.deepEq(a[0].(iface), a[1].(iface))
	})
	m["time.Now"] = always(func(fr *frame, a []value) value { return zeroResult(fr.in.tt, fr.fn) })
	m["os.Getenv"] = always(func(fr *frame, a []value) value { return S("") })
	initXML(m)
}

func (in *Interp) strLenQuiet(s Str) *Term {
	if s.hasOpq() {
		return in.int(len(s.segs))
	}
	return in.strLen(s)
}

func atomicIntrinsic(fn *ssa.Function, name string) intrinsic {
	i := strings.LastIndex(name, ".")
	base := name[i+1:]
	if strings.HasPrefix(name, "(*sync/atomic.Value)") {
		switch base {
		case "Load":
			return always(func(fr *frame, a []value) value {
				if v, ok := fr.in.side[fr.in.ptr(a[0])].(iface); ok {
					return v
				}
				return iface{}
			})
		case "Store":
			return always(func(fr *frame, a []value) value { fr.in.side[fr.in.ptr(a[0])] = a[1]; return nil })
		}
		return nil
	}
	if strings.HasPrefix(name, "(") {
		return nil // methods of the typed atomics are ordinary code over the functions
	}
	upd := func(fr *frame, p *value, v value) {
		storeInto(p, v)
		if fr.in.watch && fr.in.frozen[p] {
			fr.in.freeze(v, map[interface{}]bool{})
		}
	}
	switch {
	case strings.HasPrefix(base, "Load"):
		return always(func(fr *frame, a []value) value { return copyVal(*fr.in.ptr(a[0])) })
	case strings.HasPrefix(base, "Store"):
		return always(func(fr *frame, a []value) value { upd(fr, fr.in.ptr(a[0]), a[1]); return nil })
	case strings.HasPrefix(base, "Add"):
		return always(func(fr *frame, a []value) value {
			p := fr.in.ptr(a[0])
			n := fr.in.tt.BVOp(OAdd, (*p).(*Term), a[1].(*Term))
			upd(fr, p, n)
			return n
		})
	case strings.HasPrefix(base, "Swap"):
		return always(func(fr *frame, a []value) value {
			p := fr.in.ptr(a[0])
			o := copyVal(*p)
			upd(fr, p, a[1])
			return o
		})
	case strings.HasPrefix(base, "CompareAndSwap"):
		return always(func(fr *frame, a []value) value {
			p := fr.in.ptr(a[0])
			if fr.in.branch(fr.in.eq(types.Typ[types.Int], *p, a[1])) {
				upd(fr, p, a[2])
				return fr.in.tt.T
			}
			return fr.in.tt.F
		})
	}
	return nil
}

func (in *Interp) setDefaults(t types.Type, p *value) {
	st, ok := under(t).(*types.Struct)
	if !ok {
		return
	}
	s := (*p).(structV)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(st.Tag(i)).Get("default")
		switch ft := under(f.Type()).(type) {
		case *types.Struct:
			in.setDefaults(f.Type(), &s[i])
		case *types.Basic:
			if tag == "" {
				continue
			}
			switch {
			case ft.Info()&types.IsString != 0:
				if in.branch(in.tt.strEq(s[i].(Str), S(""))) {
					s[i] = S(tag)
				}
			case ft.Info()&types.IsBoolean != 0:
				b, _ := strconv.ParseBool(tag)
				s[i] = in.tt.Ite(s[i].(*Term), s[i].(*Term), in.tt.Bool(b))
			case ft.Info()&types.IsInteger != 0:
				n, _ := strconv.ParseInt(tag, 10, 64)
				z := s[i].(*Term)
				s[i] = in.tt.Ite(in.tt.Eq(z, in.tt.BV(0, int(z.sort.w))), in.tt.BV(uint64(n), int(z.sort.w)), z)
			case ft.Info()&types.IsFloat != 0:
				f, _ := strconv.ParseFloat(tag, 64)
				z := s[i].(*Term)
				s[i] = in.tt.Ite(in.tt.FCmp(OFEq, z, in.tt.FConst(0, z.sort)), in.tt.FConst(f, z.sort), z)
			}
		}
	}
}

func (in *Interp) deepEq(a, b iface) *Term {
	if a.t == nil || b.t == nil {
		return in.tt.Bool(a.t == nil && b.t == nil)
	}
	if !types.Identical(a.t, b.t) {
		return in.tt.F
	}
	return in.deepEqT(a.t, a.v, b.v, 0)
}

func (in *Interp) deepEqT(t types.Type, a, b value, d int) *Term {
	tt := in.tt
	if d > 60 {
		panic(unsupported{"deep comparison depth"})
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		p, q := a.(*value), b.(*value)
		if p == nil || q == nil {
			return tt.Bool(p == nil && q == nil)
		}
		if p == q {
			return tt.T
		}
		return in.deepEqT(u.Elem(), *p, *q, d+1)
	case *types.Struct:
		r := tt.T
		for i := range a.(structV) {
			r = tt.And(r, in.deepEqT(u.Field(i).Type(), a.(structV)[i], b.(structV)[i], d+1))
		}
		return r
	case *types.Array:
		r := tt.T
		for i := range a.(arrayV) {
			r = tt.And(r, in.deepEqT(u.Elem(), a.(arrayV)[i], b.(arrayV)[i], d+1))
		}
		return r
	case *types.Slice:
		x, y := a.(sliceV), b.(sliceV)
		if len(x) != len(y) || (x == nil) != (y == nil) {
			return tt.F
		}
		r := tt.T
		for i := range x {
			r = tt.And(r, in.deepEqT(u.Elem(), x[i], y[i], d+1))
		}
		return r
	case *types.Map:
		x, y := a.(*mapV), b.(*mapV)
		if (x == nil) != (y == nil) {
			return tt.F
		}
		if x == y {
			return tt.T
		}
		lx, ly := in.mapLive(x), in.mapLive(y)
		if len(lx) != len(ly) {
			return tt.F
		}
		r := tt.T
		for _, e := range lx {
			f := in.mapFind(y, u.Key(), e.k)
			if f == nil {
				return tt.F
			}
			r = tt.And(r, in.deepEqT(u.Elem(), e.v, f.v, d+1))
		}
		return r
	case *types.Interface:
		return in.deepEq(a.(iface), b.(iface))
	case *types.Signature:
		_, x := a.(funcNil)
		_, y := b.(funcNil)
		return tt.Bool(x && y)
	}
	return in.eq(t, a, b)
}

// fillStruct stores each value in the fields of its type.
// strip sets the fields of the given name to their zero value everywhere under v.
func (in *Interp) strip(t types.Type, v value, field string, d int) {
	if d > 80 {
		panic(unsupported{"strip depth"})
	}
	switch u := under(t).(type) {
	case *types.Pointer:
		if p, _ := v.(*value); p != nil {
			in.strip(u.Elem(), *p, field, d+1)
		}
	case *types.Struct:
		s, ok := v.(structV)
		if !ok {
			return
		}
		for i := range s {
			if u.Field(i).Name() == field {
				s[i] = zero(in.tt, u.Field(i).Type())
			} else {
				in.strip(u.Field(i).Type(), s[i], field, d+1)
			}
		}
	case *types.Slice:
		x, _ := v.(sliceV)
		for i := range x {
			in.strip(u.Elem(), x[i], field, d+1)
		}
	case *types.Interface:
		if x, ok := v.(iface); ok && x.t != nil {
			in.strip(x.t, x.v, field, d+1)
		}
	}
}

func fillStruct(st *types.Struct, s structV, vals []iface) int {
	n := 0
	for i := 0; i < st.NumFields(); i++ {
		done := false
		for _, v := range vals {
			if types.Identical(v.t, st.Field(i).Type()) {
				s[i] = copyVal(v.v)
				done = true
				n++
			}
		}
		if es, ok := under(st.Field(i).Type()).(*types.Struct); ok && !done && st.Field(i).Embedded() {
			n += fillStruct(es, s[i].(structV), vals)
		}
	}
	return n
}
