package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Interpreter values:
//   *Term            bool, integers, floats
//   Str              strings
//   structV arrayV   aggregates (copied on load and store)
//   sliceV           slices (Go slice semantics, concrete length)
//   *value           pointers (nil pointer = (*value)(nil))
//   iface            interface values
//   *mapV *chanV     reference types
//   *closure, *ssa.Function, *ssa.Builtin, funcNil
//   tuple            multiple results
//   *native          engine-side objects
type value interface{}

type structV []value
type arrayV []value
type sliceV []value
type tuple []value
type iface struct {
	t types.Type
	v value
}
type closure struct {
	fn  *ssa.Function
	env []value
}
type boundNative struct{ f func(fr *frame, args []value) value }
type funcNil struct{}
type native struct{ v interface{} }
type chanV struct {
	buf    []value
	cap    int
	closed bool
}

type mapEntry struct {
	k       value
	v       value
	present *Term
	frozen  bool
}
type mapV struct {
	es     []*mapEntry
	idx    map[string]int // concrete string keys, when every key is a concrete string
	frozen bool
	id     int
}

// Str is a concrete string (segs nil) or a sequence of symbolic bytes and opaque numerals.
type Str struct {
	s    string
	segs []seg
}
type seg struct {
	b *Term // 8-bit
	o *opq
}

// opq is the decimal text of a symbolic number: kind 'f' = FormatFloat(x,'g',-1,64), '4' = the same with 32 bits, 'd' = FormatInt (64-bit signed), 'b' = FormatBool
type opq struct {
	kind byte
	t    *Term
}

func S(s string) Str { return Str{s: s} }
func (s Str) conc() bool {
	return s.segs == nil
}
func (s Str) list(tt *TermTab) []seg {
	if s.segs != nil {
		return s.segs
	}
	r := make([]seg, len(s.s))
	for i := 0; i < len(s.s); i++ {
		r[i] = seg{b: tt.BV(uint64(s.s[i]), 8)}
	}
	return r
}
func mkStr(l []seg) Str {
	all := true
	for _, x := range l {
		if x.o != nil || !x.b.isConst() {
			all = false
			break
		}
	}
	if all {
		b := make([]byte, len(l))
		for i, x := range l {
			b[i] = byte(x.b.val)
		}
		return Str{s: string(b)}
	}
	return Str{segs: l}
}
func (s Str) hasOpq() bool {
	for _, x := range s.segs {
		if x.o != nil {
			return true
		}
	}
	return false
}
func (s Str) dbg() string {
	if s.conc() {
		return s.s
	}
	var sb strings.Builder
	for _, x := range s.segs {
		if x.o != nil {
			fmt.Fprintf(&sb, "{%c:%s}", x.o.kind, x.o.t.ref())
		} else if x.b.isConst() {
			sb.WriteByte(byte(x.b.val))
		} else {
			fmt.Fprintf(&sb, "{%s}", x.b.ref())
		}
	}
	return sb.String()
}
func strConcat(tt *TermTab, a, b Str) Str {
	if a.conc() && b.conc() {
		return S(a.s + b.s)
	}
	if a.conc() && a.s == "" {
		return b
	}
	if b.conc() && b.s == "" {
		return a
	}
	la, lb := a.list(tt), b.list(tt)
	r := make([]seg, 0, len(la)+len(lb))
	r = append(append(r, la...), lb...)
	return Str{segs: r}
}

// opqNum renders the constant case of an opaque numeral.
func opqConst(kind byte, t *Term) string {
	switch kind {
	case 'f':
		return strconv.FormatFloat(t.f(), 'g', -1, 64)
	case '4':
		return strconv.FormatFloat(t.f(), 'g', -1, 32)
	case 'd':
		return strconv.FormatInt(t.sval(), 10)
	case 'b':
		return strconv.FormatBool(t.val == 1)
	}
	panic("opqConst")
}
func mkOpq(kind byte, t *Term) Str {
	if t.isConst() {
		return S(opqConst(kind, t))
	}
	return Str{segs: []seg{{o: &opq{kind, t}}}}
}

// opqEqConst: condition under which the numeral equals the concrete text s.
func (tt *TermTab) opqEqConst(o *opq, s string) *Term {
	switch o.kind {
	case 'f':
		f, err := strconv.ParseFloat(s, 64)
		if err != nil || strconv.FormatFloat(f, 'g', -1, 64) != s {
			return tt.F
		}
		return tt.Eq(o.t, tt.F64(f))
	case '4':
		f, err := strconv.ParseFloat(s, 32)
		if err != nil || strconv.FormatFloat(f, 'g', -1, 32) != s {
			return tt.F
		}
		return tt.Eq(o.t, tt.F32(float32(f)))
	case 'd':
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil || strconv.FormatInt(n, 10) != s {
			return tt.F
		}
		return tt.Eq(o.t, tt.BV(uint64(n), 64))
	case 'b':
		if s == "true" {
			return o.t
		}
		if s == "false" {
			return tt.Not(o.t)
		}
		return tt.F
	}
	panic("opqEqConst")
}

const numeralChars = "+-0123456789.eEINnafirtusl"

func (tt *TermTab) strEq(a, b Str) *Term {
	if a.conc() && b.conc() {
		return tt.Bool(a.s == b.s)
	}
	la, lb := a.list(tt), b.list(tt)
	r := tt.T
	same := func(x, y seg) (*Term, bool) {
		if x.o == nil && y.o == nil {
			return tt.Eq(x.b, y.b), true
		}
		if x.o != nil && y.o != nil && x.o.kind == y.o.kind && x.o.t == y.o.t {
			return tt.T, true
		}
		return nil, false
	}
	for len(la) > 0 && len(lb) > 0 {
		c, ok := same(la[0], lb[0])
		if !ok {
			break
		}
		r = tt.And(r, c)
		la, lb = la[1:], lb[1:]
	}
	for len(la) > 0 && len(lb) > 0 {
		c, ok := same(la[len(la)-1], lb[len(lb)-1])
		if !ok {
			break
		}
		r = tt.And(r, c)
		la, lb = la[:len(la)-1], lb[:len(lb)-1]
	}
	if r.isFalse() {
		return r
	}
	if len(la) == 0 && len(lb) == 0 {
		return r
	}
	if len(la) == 0 || len(lb) == 0 {
		return tt.F // every remaining segment is at least one character long
	}
	ra, rb := mkStr(la), mkStr(lb)
	if !ra.hasOpq() && !rb.hasOpq() {
		return tt.F // different lengths
	}
	if ra.conc() {
		ra, rb = rb, ra
	}
	if len(ra.segs) == 1 && ra.segs[0].o != nil {
		o := ra.segs[0].o
		if rb.conc() {
			return tt.And(r, tt.opqEqConst(o, rb.s))
		}
		if len(rb.segs) == 1 && rb.segs[0].o != nil {
			p := rb.segs[0].o
			if p.kind == o.kind {
				return tt.And(r, tt.Eq(o.t, p.t))
			}
		}
	}
	// a character that no numeral contains
	if x, y := ra.segs[0], rb.list(tt)[0]; x.o != nil && y.o == nil && y.b.isConst() && !strings.ContainsRune(numeralChars, rune(y.b.val)) {
		return tt.F
	}
	if rb.segs != nil && rb.segs[0].o != nil && ra.segs[0].o == nil && ra.segs[0].b.isConst() && !strings.ContainsRune(numeralChars, rune(ra.segs[0].b.val)) {
		return tt.F
	}
	panic(unsupported{"equality of composed symbolic strings: " + a.dbg() + " = " + b.dbg()})
}

func (tt *TermTab) strLess(a, b Str) *Term {
	if a.conc() && b.conc() {
		return tt.Bool(a.s < b.s)
	}
	if a.hasOpq() || b.hasOpq() {
		panic(unsupported{"ordering of symbolic numerals"})
	}
	la, lb := a.list(tt), b.list(tt)
	n := len(la)
	if len(lb) < n {
		n = len(lb)
	}
	r := tt.Bool(len(la) < len(lb))
	for i := n - 1; i >= 0; i-- {
		r = tt.Ite(tt.Cmp(OUlt, la[i].b, lb[i].b), tt.T, tt.Ite(tt.Eq(la[i].b, lb[i].b), r, tt.F))
	}
	return r
}

// ---- types ----

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func basicSort(b *types.Basic) (Sort, bool) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return SBool, true
	case types.Int8, types.Uint8:
		return SBV(8), true
	case types.Int16, types.Uint16:
		return SBV(16), true
	case types.Int32, types.Uint32, types.UntypedRune:
		return SBV(32), true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
		return SBV(64), true
	case types.Float64, types.UntypedFloat:
		return SF64, true
	case types.Float32:
		return SF32, true
	}
	return Sort{}, false
}
func isSigned(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isString(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isFloat(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInteger(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func zero(tt *TermTab, t types.Type) value {
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return S("")
		}
		if u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil {
			return (*value)(nil)
		}
		s, ok := basicSort(u)
		if !ok {
			panic(unsupported{"type " + t.String()})
		}
		switch s.k {
		case KBool:
			return tt.F
		case KBV:
			return tt.BV(0, int(s.w))
		}
		return tt.FConst(0, s)
	case *types.Pointer:
		return (*value)(nil)
	case *types.Struct:
		r := make(structV, u.NumFields())
		for i := range r {
			r[i] = zero(tt, u.Field(i).Type())
		}
		return r
	case *types.Array:
		r := make(arrayV, u.Len())
		for i := range r {
			r[i] = zero(tt, u.Elem())
		}
		return r
	case *types.Slice:
		return sliceV(nil)
	case *types.Map:
		return (*mapV)(nil)
	case *types.Chan:
		return (*chanV)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return funcNil{}
	case *types.Tuple:
		if u.Len() == 1 {
			return zero(tt, u.At(0).Type())
		}
		r := make(tuple, u.Len())
		for i := range r {
			r[i] = zero(tt, u.At(i).Type())
		}
		return r
	case *types.TypeParam:
		panic(unsupported{"type parameter"})
	}
	panic(fmt.Sprintf("zero: %T", under(t)))
}

func constValue(tt *TermTab, c *ssa.Const) value {
	if c.Value == nil {
		return zero(tt, c.Type())
	}
	u := under(c.Type())
	b, ok := u.(*types.Basic)
	if !ok {
		panic(unsupported{"constant of type " + c.Type().String()})
	}
	if b.Info()&types.IsString != 0 {
		if c.Value.Kind() == constant.String {
			return S(constant.StringVal(c.Value))
		}
		return S(string(rune(c.Int64())))
	}
	s, ok := basicSort(b)
	if !ok {
		panic(unsupported{"constant of type " + c.Type().String()})
	}
	switch s.k {
	case KBool:
		return tt.Bool(constant.BoolVal(c.Value))
	case KBV:
		if b.Info()&types.IsUnsigned != 0 {
			return tt.BV(c.Uint64(), int(s.w))
		}
		return tt.BV(uint64(c.Int64()), int(s.w))
	case KF32:
		return tt.F32(float32(c.Float64()))
	}
	return tt.F64(c.Float64())
}

func copyVal(v value) value {
	switch x := v.(type) {
	case structV:
		r := make(structV, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	case arrayV:
		r := make(arrayV, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	}
	return v
}

func storeInto(addr *value, v value) {
	switch x := v.(type) {
	case structV:
		if d, ok := (*addr).(structV); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*addr = copyVal(v)
	case arrayV:
		if d, ok := (*addr).(arrayV); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			for i := range x {
				storeInto(&d[i], x[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

// equality of two values of static type t
func (in *Interp) eq(t types.Type, a, b value) *Term {
	tt := in.tt
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.sort.k == KF64 || x.sort.k == KF32 {
			return tt.FCmp(OFEq, x, y)
		}
		return tt.Eq(x, y)
	case Str:
		return tt.strEq(x, b.(Str))
	case *value:
		return tt.Bool(x == b.(*value))
	case structV:
		y := b.(structV)
		r := tt.T
		st := under(t).(*types.Struct)
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = tt.And(r, in.eq(st.Field(i).Type(), x[i], y[i]))
		}
		return r
	case arrayV:
		y := b.(arrayV)
		r := tt.T
		et := under(t).(*types.Array).Elem()
		for i := range x {
			r = tt.And(r, in.eq(et, x[i], y[i]))
		}
		return r
	case iface:
		y, ok := b.(iface)
		if !ok {
			panic(fmt.Sprintf("eq iface with %T", b))
		}
		if x.t == nil || y.t == nil {
			return tt.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tt.F
		}
		if !types.Comparable(x.t) {
			in.goPanic("comparing uncomparable type " + x.t.String())
		}
		return in.eq(x.t, x.v, y.v)
	case *mapV:
		y, _ := b.(*mapV)
		return tt.Bool(x == y)
	case *chanV:
		y, _ := b.(*chanV)
		return tt.Bool(x == y)
	case sliceV:
		y, _ := b.(sliceV)
		return tt.Bool(x == nil && y == nil)
	case funcNil:
		_, n := b.(funcNil)
		return tt.Bool(n)
	case *closure, *ssa.Function, *boundNative, *ssa.Builtin:
		_, n := b.(funcNil)
		if n {
			return tt.F
		}
		panic(unsupported{"function comparison"})
	case *native:
		y, _ := b.(*native)
		return tt.Bool(x == y)
	}
	panic(unsupported{fmt.Sprintf("equality of %T", a)})
}

// ---- maps ----

func (in *Interp) newMap() *mapV {
	in.mapSeq++
	return &mapV{idx: map[string]int{}, id: in.mapSeq}
}

// find returns the entry for k, forking on symbolic key equality and presence.
func (in *Interp) mapFind(m *mapV, kt types.Type, k value) *mapEntry {
	if m == nil {
		return nil
	}
	if itf, ok := k.(iface); ok && itf.t != nil && !types.Comparable(itf.t) {
		in.goPanic("hash of unhashable type " + itf.t.String())
	}
	if s, ok := k.(Str); ok && s.conc() && m.idx != nil {
		i, ok := m.idx[s.s]
		if !ok {
			return nil
		}
		e := m.es[i]
		if in.branch(e.present) {
			return e
		}
		return nil
	}
	for _, e := range m.es {
		c := in.eq(kt, e.k, k)
		if c.isFalse() {
			continue
		}
		if in.branch(in.tt.And(e.present, c)) {
			return e
		}
	}
	return nil
}

func (in *Interp) mapPut(m *mapV, kt types.Type, k, v value, present *Term) {
	if m == nil {
		in.goPanic("assignment to entry in nil map")
	}
	if s, ok := k.(Str); ok && s.conc() && m.idx != nil {
		if i, ok := m.idx[s.s]; ok {
			e := m.es[i]
			if !in.branch(e.present) { // re-inserted: goes to the end
				in.mapDrop(m, i)
			} else {
				e.v = copyVal(v)
				return
			}
		}
		m.idx[s.s] = len(m.es)
		m.es = append(m.es, &mapEntry{k: k, v: copyVal(v), present: present})
		return
	}
	if e := in.mapFind(m, kt, k); e != nil {
		e.v = copyVal(v)
		return
	}
	if s, ok := k.(Str); !ok || !s.conc() {
		m.idx = nil
	}
	m.es = append(m.es, &mapEntry{k: copyVal(k), v: copyVal(v), present: present})
}

func (in *Interp) mapDrop(m *mapV, i int) {
	m.es = append(append([]*mapEntry{}, m.es[:i]...), m.es[i+1:]...)
	if m.idx != nil {
		m.idx = map[string]int{}
		for j, e := range m.es {
			m.idx[e.k.(Str).s] = j
		}
	}
}

func (in *Interp) mapDelete(m *mapV, kt types.Type, k value) {
	if m == nil {
		return
	}
	if e := in.mapFind(m, kt, k); e != nil {
		for i, x := range m.es {
			if x == e {
				in.mapDrop(m, i)
				return
			}
		}
	}
}

func (in *Interp) mapLive(m *mapV) []*mapEntry {
	if m == nil {
		return nil
	}
	var r []*mapEntry
	for _, e := range append([]*mapEntry{}, m.es...) {
		if in.branch(e.present) {
			r = append(r, e)
		}
	}
	return r
}

func fInt(f float64) bool { return f == math.Trunc(f) }
