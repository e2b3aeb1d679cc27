package main

import (
	"fmt"
	"go/types"
	"math"
	"sort"
	"strconv"
	"strings"
)

// A model of package fmt: concrete scalars are formatted by the real fmt, symbolic ones become opaque numerals.

func (in *Interp) sprint(fr *frame, args sliceV, ln bool) Str {
	r := S("")
	prevStr := true
	for i, a := range args {
		v := a.(iface)
		isS := v.t != nil && isString(v.t)
		if i > 0 && (ln || (!isS && !prevStr)) {
			r = strConcat(in.tt, r, S(" "))
		}
		r = strConcat(in.tt, r, in.fmtVal(fr, v, 'v', "", 0))
		prevStr = isS
	}
	if ln {
		r = strConcat(in.tt, r, S("\n"))
	}
	return r
}

func (in *Interp) sprintf(fr *frame, f Str, args sliceV) Str {
	format, ok := cs(f)
	if !ok {
		panic(unsupported{"symbolic format string"})
	}
	r := S("")
	add := func(s Str) { r = strConcat(in.tt, r, s) }
	n := 0
	for i := 0; i < len(format); {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			add(S(format[i:]))
			break
		}
		add(S(format[i : i+j]))
		i += j + 1
		st := i
		for i < len(format) && strings.IndexByte("+-# 0123456789.[]*", format[i]) >= 0 {
			i++
		}
		if i >= len(format) {
			add(S("%!(NOVERB)"))
			break
		}
		flags := format[st:i]
		verb := format[i]
		i++
		if verb == '%' {
			add(S("%"))
			continue
		}
		if strings.ContainsAny(flags, "*[]") {
			panic(unsupported{"fmt flags " + flags})
		}
		if n >= len(args) {
			add(S("%!" + string(verb) + "(MISSING)"))
			continue
		}
		v := args[n].(iface)
		n++
		if verb == 'w' {
			verb = 'v'
		}
		add(in.fmtVal(fr, v, verb, flags, 0))
	}
	if n < len(args) {
		add(S("%!(EXTRA ...)"))
	}
	return r
}

func (in *Interp) fmtVal(fr *frame, v iface, verb byte, flags string, depth int) Str {
	if depth > 8 {
		return S("...")
	}
	if verb == 'T' {
		if v.t == nil {
			return S("<nil>")
		}
		return S(types.TypeString(v.t, func(p *types.Package) string { return p.Name() }))
	}
	if v.t == nil {
		if verb == 'v' {
			return S("<nil>")
		}
		return S("%!" + string(verb) + "(<nil>)")
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if !strings.Contains(flags, "#") {
			for _, mn := range []string{"Error", "String"} {
				m := in.findMethod(v.t, mn)
				if m != nil && m.Signature.Params().Len() == 0 && m.Signature.Results().Len() == 1 && isString(m.Signature.Results().At(0).Type()) {
					if p, ok := v.v.(*value); ok && p == nil {
						return S("<nil>")
					}
					s := in.call(fr, m, []value{copyVal(v.v)}, nil).(Str)
					if verb == 'q' {
						return in.quote(s)
					}
					return s
				}
			}
		}
	}
	switch x := v.v.(type) {
	case Str:
		if x.conc() {
			return S(fmt.Sprintf("%"+flags+string(verb), x.s))
		}
		if verb == 'q' {
			return in.quote(x)
		}
		if (verb == 's' || verb == 'v') && flags == "" {
			return x
		}
	case *Term:
		b := under(v.t).(*types.Basic)
		if x.isConst() {
			return S(fmt.Sprintf("%"+flags+string(verb), goConst(x, b)))
		}
		switch {
		case x.sort.k == KBool && (verb == 'v' || verb == 't'):
			return mkOpq('b', x)
		case x.sort.k == KF64 && (verb == 'v' || verb == 'g') && flags == "":
			return mkOpq('f', x)
		case x.sort.k == KF32 && (verb == 'v' || verb == 'g') && flags == "":
			return mkOpq('4', x)
		case x.sort.k == KBV && (verb == 'v' || verb == 'd') && flags == "":
			if isSigned(v.t) {
				return mkOpq('d', in.tt.Ext(OSext, x, 64))
			}
			if x.sort.w < 64 {
				return mkOpq('d', in.tt.Ext(OZext, x, 64))
			}
			if in.branch(in.tt.Cmp(OSle, in.tt.BV(0, 64), x)) {
				return mkOpq('d', x)
			}
		}
		// error-message formats of symbolic numbers: an opaque placeholder
		switch {
		case x.sort.k == KF64:
			return mkOpq('f', x)
		case x.sort.k == KF32:
			return mkOpq('4', x)
		case x.sort.k == KBV:
			return mkOpq('d', in.tt.Ext(OSext, x, 64))
		}
		return mkOpq('b', x)
	case *value:
		if x == nil {
			return S("<nil>")
		}
		if _, ok := (*x).(structV); ok && depth == 0 && verb == 'v' {
			return strConcat(in.tt, S("&"), in.fmtVal(fr, iface{t: under(v.t).(*types.Pointer).Elem(), v: *x}, verb, flags, depth+1))
		}
		return S("0xc000012345")
	case structV:
		st := under(v.t).(*types.Struct)
		r := S("{")
		for i := range x {
			if i > 0 {
				r = strConcat(in.tt, r, S(" "))
			}
			r = strConcat(in.tt, r, in.fmtField(fr, st.Field(i).Type(), x[i], verb, flags, depth))
		}
		return strConcat(in.tt, r, S("}"))
	case sliceV:
		et := under(v.t).(*types.Slice).Elem()
		r := S("[")
		for i := range x {
			if i > 0 {
				r = strConcat(in.tt, r, S(" "))
			}
			r = strConcat(in.tt, r, in.fmtField(fr, et, x[i], verb, flags, depth))
		}
		return strConcat(in.tt, r, S("]"))
	case arrayV:
		et := under(v.t).(*types.Array).Elem()
		r := S("[")
		for i := range x {
			if i > 0 {
				r = strConcat(in.tt, r, S(" "))
			}
			r = strConcat(in.tt, r, in.fmtField(fr, et, x[i], verb, flags, depth))
		}
		return strConcat(in.tt, r, S("]"))
	case *mapV:
		mt := under(v.t).(*types.Map)
		type kv struct{ k, v Str }
		var l []kv
		for _, e := range in.mapLive(x) {
			l = append(l, kv{in.fmtField(fr, mt.Key(), e.k, verb, flags, depth), in.fmtField(fr, mt.Elem(), e.v, verb, flags, depth)})
		}
		sort.SliceStable(l, func(i, j int) bool { return l[i].k.dbg() < l[j].k.dbg() })
		r := S("map[")
		for i, e := range l {
			if i > 0 {
				r = strConcat(in.tt, r, S(" "))
			}
			r = strConcat(in.tt, r, strConcat(in.tt, e.k, strConcat(in.tt, S(":"), e.v)))
		}
		return strConcat(in.tt, r, S("]"))
	}
	return S("0xc000054321")
}

func (in *Interp) fmtField(fr *frame, t types.Type, v value, verb byte, flags string, depth int) Str {
	if _, ok := under(t).(*types.Interface); ok {
		return in.fmtVal(fr, v.(iface), verb, flags, depth+1)
	}
	return in.fmtVal(fr, iface{t: t, v: v}, verb, flags, depth+1)
}

func (in *Interp) quote(s Str) Str {
	if s.conc() {
		return S(strconv.Quote(s.s))
	}
	return strConcat(in.tt, strConcat(in.tt, S(`"`), s), S(`"`))
}

func goConst(x *Term, b *types.Basic) interface{} {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return x.val == 1
	case types.Int, types.Int64, types.UntypedInt:
		return x.sval()
	case types.Int32, types.UntypedRune:
		return int32(x.sval())
	case types.Int16:
		return int16(x.sval())
	case types.Int8:
		return int8(x.sval())
	case types.Uint, types.Uint64, types.Uintptr:
		return x.val
	case types.Uint32:
		return uint32(x.val)
	case types.Uint16:
		return uint16(x.val)
	case types.Uint8:
		return uint8(x.val)
	case types.Float32:
		return math.Float32frombits(uint32(x.val))
	}
	return x.f()
}
