package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// control-flow signals of the engine
type unsupported struct{ why string }
type abortPath struct{ why string }
type targetPanic struct{ v value } // v is an interface value
type targetExit struct{}

type Program struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package
	repoPath string
	harness  *ssa.Package
}

type fnInfo struct {
	idx   map[ssa.Value]int
	n     int
	intr  intrinsic
	name  string
	repo  bool
	instr int
}

type inputRec struct {
	Name string `json:"n"`
	Kind string `json:"k"`
	t    *Term
	ts   []*Term
	c    int
}

type obsRec struct {
	name string
	v    value
	t    types.Type
}

type Interp struct {
	P       *Program
	tt      *TermTab
	sol     *Solver
	sol2    *Solver // abstracted queries
	ex      *Explorer
	fns     map[*ssa.Function]*fnInfo
	consts  map[*ssa.Const]value
	globals map[*ssa.Global]*value
	inited  map[*ssa.Package]bool
	methods map[string]*ssa.Function
	impls   map[string]bool

	// path state
	pc            []*Term
	order map[*Term][]orderEdge
	given, ranges map[*Term]fpRange
	lits          map[*Term]bool
	prefix        []int32
	pos           int
	dec           []int32
	model         map[*Term]uint64
	pathVars      []*Term
	steps         int
	depth         int
	names         map[string]int
	inputs        []inputRec
	obs           []obsRec
	reached       []string
	asserts       int
	mapSeq        int
	permute       bool
	builders      map[*value]Str
	smaps         map[*value]*mapV
	decoders      map[*value]*xmlDec
	side          map[*value]interface{}
	locks         int
	frozen        map[*value]bool
	watch         bool
	viol          *cex
	pathNote      []string
	covered       map[string]bool
	lastFn        string
	lastPos       token.Pos
	curPanic      string
	approx        bool // the path condition contains uninterpreted functions
	lockedW       map[*value]string
	plainR        map[*value]string
	curFrame      *frame
	inconcl       []string
	reachedBy     map[string]int
}

func newInterp(P *Program, ex *Explorer) *Interp {
	in := &Interp{P: P, ex: ex}
	in.fresh()
	return in
}

// fresh drops all terms (called when the term table grows too large).
func (in *Interp) fresh() {
	if in.sol != nil {
		in.ex.absorb(in.sol)
		in.sol.close()
	}
	if in.sol2 != nil {
		in.ex.absorb(in.sol2)
		in.sol2.close()
		in.sol2 = nil
	}
	in.tt = NewTermTab()
	in.sol = newSolver(in.ex.solverBin, in.ex.solverArgs...)
	in.fns = map[*ssa.Function]*fnInfo{}
	in.consts = map[*ssa.Const]value{}
	in.globals = map[*ssa.Global]*value{}
	in.inited = map[*ssa.Package]bool{}
	in.methods = map[string]*ssa.Function{}
	in.impls = map[string]bool{}
	if in.covered == nil {
		in.covered = map[string]bool{}
	}
}

type deferred struct {
	fn   value
	args []value
	call *ssa.CallCommon
}

type frame struct {
	in      *Interp
	fn      *ssa.Function
	info    *fnInfo
	env     []value
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	defers  []deferred
	result  value
	caller  *frame
	pan     *targetPanic // panic in flight while running deferred calls
	recov   bool
	deferOf *frame // set when this frame is a deferred call run by deferOf
	pos     token.Pos
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if i, ok := in.fns[fn]; ok {
		return i
	}
	i := &fnInfo{idx: map[ssa.Value]int{}}
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	i.name = o.String()
	i.intr = lookupIntrinsic(o, i.name)
	for _, p := range fn.Params {
		i.idx[p] = i.n
		i.n++
	}
	for _, p := range fn.FreeVars {
		i.idx[p] = i.n
		i.n++
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if v, ok := ins.(ssa.Value); ok {
				i.idx[v] = i.n
				i.n++
			}
		}
	}
	if p := fnPkg(fn); p != "" && isRepoPkg(p) {
		i.repo = true
	}
	in.fns[fn] = i
	return i
}

func fnPkg(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if f.Origin() != nil && f.Origin().Pkg != nil {
			return f.Origin().Pkg.Pkg.Path()
		}
	}
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		return fn.Object().Pkg().Path()
	}
	return ""
}

func isRepoPkg(p string) bool { return strings.HasPrefix(p, repoModule) }

const repoModule = "github.com/flukeish/pmml"

func (fr *frame) get(v ssa.Value) value {
	switch x := v.(type) {
	case *ssa.Const:
		in := fr.in
		c, ok := in.consts[x]
		if !ok {
			c = constValue(in.tt, x)
			in.consts[x] = c
		}
		return c
	case *ssa.Global:
		return fr.in.global(x)
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return x
	case nil:
		return nil
	}
	return fr.env[fr.info.idx[v]]
}

func (fr *frame) set(v ssa.Value, x value) { fr.env[fr.info.idx[v]] = x }

func (in *Interp) global(g *ssa.Global) *value {
	if p := g.Pkg; p != nil && !in.inited[p] {
		in.initPkg(p)
	}
	c, ok := in.globals[g]
	if !ok {
		v := zero(in.tt, under(g.Type()).(*types.Pointer).Elem())
		c = &v
		in.globals[g] = c
	}
	return c
}

func (in *Interp) initPkg(p *ssa.Package) {
	in.inited[p] = true
	if f := p.Func("init"); f != nil {
		w, l := in.watch, in.locks
		in.watch = false
		in.call(nil, f, nil, nil)
		in.watch, in.locks = w, l
	}
}

// reset prepares for a new path.
func (in *Interp) reset(prefix []int32) {
	for g := range in.globals {
		if perPath(g.Pkg.Pkg.Path()) {
			delete(in.globals, g)
		}
	}
	for p := range in.inited {
		if perPath(p.Pkg.Path()) {
			delete(in.inited, p)
		}
	}
	in.pc = in.pc[:0:0]
	in.lits = map[*Term]bool{}
	in.given, in.ranges = nil, nil
	in.order = nil
	in.prefix = prefix
	in.pos = 0
	in.dec = nil
	in.model = nil
	in.pathVars = nil
	in.steps = 0
	in.depth = 0
	in.names = map[string]int{}
	in.inputs = nil
	in.obs = nil
	in.reached = nil
	in.asserts = 0
	in.mapSeq = 0
	in.permute = false
	in.builders = map[*value]Str{}
	in.smaps = map[*value]*mapV{}
	in.decoders = map[*value]*xmlDec{}
	in.side = map[*value]interface{}{}
	in.locks = 0
	in.frozen = map[*value]bool{}
	in.watch = false
	in.viol = nil
	in.pathNote = nil
	in.approx = false
	in.lockedW = map[*value]string{}
	in.plainR = map[*value]string{}
	in.curFrame = nil
	in.inconcl = nil
}

func perPath(p string) bool {
	return strings.Contains(strings.SplitN(p, "/", 2)[0], ".") || strings.HasPrefix(p, "verif/")
}

func (in *Interp) goPanic(msg string) {
	// runtime errors are runtime.Error values; represented by errors.errorString-like runtime.errorString when available
	panic(targetPanic{in.runtimeError(msg)})
}

func (in *Interp) runtimeError(msg string) value {
	in.curPanic = msg
	rt := in.P.prog.ImportedPackage("runtime")
	if rt != nil {
		if tn, ok := rt.Members["errorString"].(*ssa.Type); ok {
			return iface{t: tn.Type(), v: S(msg)}
		}
	}
	return iface{t: types.Typ[types.String], v: S("runtime error: " + msg)}
}

const maxDepth = 400

func (in *Interp) call(caller *frame, fn *ssa.Function, args []value, env []value) value {
	return in.callD(caller, fn, args, env, nil)
}

func (in *Interp) callD(caller *frame, fn *ssa.Function, args []value, env []value, deferOf *frame) value {
	info := in.info(fn)
	if info.intr != nil {
		fr := &frame{in: in, fn: fn, info: info, caller: caller, deferOf: deferOf}
		if caller != nil {
			fr.pos = caller.pos
		}
		if r, ok := info.intr(fr, args); ok {
			return r
		}
	}
	if fn.Blocks == nil {
		panic(unsupported{"external function " + info.name})
	}
	if caller != nil && fn.Synthetic == "package initializer" && caller.fn.Synthetic == "package initializer" {
		return nil // lazy
	}
	if info.repo {
		in.covered[info.name] = true
	}
	in.depth++
	if in.depth > maxDepth {
		panic(abortPath{"recursion depth bound"})
	}
	fr := &frame{in: in, fn: fn, info: info, caller: caller, deferOf: deferOf, env: make([]value, info.n)}
	copy(fr.env, args)
	copy(fr.env[len(fn.Params):], env)
	fr.block = fn.Blocks[0]
	sv := in.curFrame
	in.curFrame = fr
	for fr.block != nil {
		fr.run()
	}
	in.curFrame = sv
	in.depth--
	return fr.result
}

// run executes from fr.block until the function returns; on a target panic it runs the deferred calls.
func (fr *frame) run() {
	in := fr.in
	depth := in.depth
	defer func() {
		if fr.block == nil {
			return // normal return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		in.depth = depth
		in.curFrame = fr
		fr.pan = &tp
		fr.recov = false
		fr.runDefers()
		if fr.pan != nil {
			fr.block = nil
			panic(*fr.pan)
		}
		// recovered
		if fr.fn.Recover != nil {
			fr.prev, fr.block = fr.block, fr.fn.Recover
		} else {
			fr.result = zeroResult(in.tt, fr.fn)
			fr.block = nil
		}
	}()
	for {
		blk := fr.block
		// phis in parallel
		i := 0
		if len(blk.Instrs) > 0 {
			if _, ok := blk.Instrs[0].(*ssa.Phi); ok {
				pi := 0
				for j, p := range blk.Preds {
					if p == fr.prev {
						pi = j
						break
					}
				}
				var vals []value
				for ; i < len(blk.Instrs); i++ {
					ph, ok := blk.Instrs[i].(*ssa.Phi)
					if !ok {
						break
					}
					vals = append(vals, fr.get(ph.Edges[pi]))
				}
				for j, v := range vals {
					fr.set(blk.Instrs[j].(*ssa.Phi), v)
				}
			}
		}
		in.steps += len(blk.Instrs)
		if in.steps > in.ex.maxSteps {
			panic(abortPath{"step bound"})
		}
		if in.steps&0xfff < len(blk.Instrs) && time.Now().After(in.ex.deadline) {
			panic(abortPath{"time budget"})
		}
		next := false
		for ; i < len(blk.Instrs); i++ {
			ins := blk.Instrs[i]
			switch fr.exec(ins) {
			case kReturn:
				fr.block = nil
				return
			case kJump:
				next = true
			}
			if next {
				break
			}
		}
		if !next {
			panic("fell off block in " + fr.fn.String())
		}
	}
}

func zeroResult(tt *TermTab, fn *ssa.Function) value {
	rs := fn.Signature.Results()
	if rs.Len() == 0 {
		return nil
	}
	return zero(tt, rs)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				tp, is := r.(targetPanic)
				if !is {
					panic(r)
				}
				fr.pan = &tp // replaces the current panic
			}()
			fr.in.callValue(fr, d.fn, d.args, fr)
			ok = true
		}()
	}
}

func (in *Interp) callValue(caller *frame, f value, args []value, deferOf *frame) value {
	switch x := f.(type) {
	case *ssa.Function:
		return in.callD(caller, x, args, nil, deferOf)
	case *closure:
		return in.callD(caller, x.fn, args, x.env, deferOf)
	case *boundNative:
		return x.f(caller, args)
	case *ssa.Builtin:
		return in.builtin(caller, x, args, nil)
	case funcNil, nil:
		in.goPanic("invalid memory address or nil pointer dereference")
	}
	panic(unsupported{fmt.Sprintf("call of %T", f)})
}

type kont int

const (
	kNext kont = iota
	kReturn
	kJump
)

func (fr *frame) prepareCall(c *ssa.CallCommon) (value, []value) {
	in := fr.in
	if c.Method == nil {
		args := make([]value, len(c.Args))
		for i, a := range c.Args {
			args[i] = copyVal(fr.get(a))
		}
		return fr.get(c.Value), args
	}
	recv := fr.get(c.Value)
	itf, ok := recv.(iface)
	if !ok {
		panic(fmt.Sprintf("invoke on %T", recv))
	}
	if itf.t == nil {
		in.goPanic("invalid memory address or nil pointer dereference")
	}
	args := make([]value, 0, len(c.Args)+1)
	args = append(args, copyVal(itf.v))
	for _, a := range c.Args {
		args = append(args, copyVal(fr.get(a)))
	}
	if n, ok := itf.v.(*native); ok {
		if nm, ok := n.v.(nativeMethods); ok {
			name := c.Method.Name()
			return &boundNative{func(f *frame, a []value) value { return nm.call(f, name, a[1:]) }}, args
		}
	}
	m := in.lookupMethod(itf.t, c.Method)
	if m == nil {
		panic(unsupported{"no method " + c.Method.Name() + " on " + itf.t.String()})
	}
	return m, args
}

type nativeMethods interface {
	call(fr *frame, name string, args []value) value
}

func (in *Interp) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	key := types.TypeString(t, nil) + "." + m.Id()
	if f, ok := in.methods[key]; ok {
		return f
	}
	f := in.P.prog.LookupMethod(t, m.Pkg(), m.Name())
	in.methods[key] = f
	return f
}

func (in *Interp) findMethod(t types.Type, name string) *ssa.Function {
	key := types.TypeString(t, nil) + "!" + name
	if f, ok := in.methods[key]; ok {
		return f
	}
	var f *ssa.Function
	ms := in.P.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name && ms.At(i).Obj().Exported() {
			f = in.P.prog.MethodValue(ms.At(i))
		}
	}
	in.methods[key] = f
	return f
}

func (in *Interp) implements(t types.Type, it *types.Interface, itt types.Type) bool {
	if it.NumMethods() == 0 {
		return true
	}
	key := types.TypeString(t, nil) + "<:" + types.TypeString(itt, nil)
	if r, ok := in.impls[key]; ok {
		return r
	}
	r := types.Implements(t, it)
	in.impls[key] = r
	return r
}

func (fr *frame) exec(instr ssa.Instruction) kont {
	in := fr.in
	tt := in.tt
	if p := instr.Pos(); p != token.NoPos {
		fr.pos = p
	}
	switch x := instr.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		fr.set(x, fr.unop(x))
	case *ssa.BinOp:
		fr.set(x, in.binop(x.Op, x.X.Type(), fr.get(x.X), fr.get(x.Y), x.Y.Type()))
	case *ssa.Call:
		fn, args := fr.prepareCall(&x.Call)
		if b, ok := fn.(*ssa.Builtin); ok {
			fr.set(x, in.builtin(fr, b, args, &x.Call))
		} else {
			fr.set(x, in.callValue(fr, fn, args, nil))
			in.curFrame = fr
		}
	case *ssa.ChangeInterface:
		fr.set(x, fr.get(x.X))
	case *ssa.ChangeType:
		fr.set(x, fr.get(x.X))
	case *ssa.Convert:
		fr.set(x, in.convert(x.X.Type(), x.Type(), fr.get(x.X)))
	case *ssa.MultiConvert:
		fr.set(x, in.convert(x.X.Type(), x.Type(), fr.get(x.X)))
	case *ssa.SliceToArrayPointer:
		s := fr.get(x.X).(sliceV)
		n := int(under(under(x.Type()).(*types.Pointer).Elem()).(*types.Array).Len())
		if len(s) < n {
			in.goPanic("cannot convert slice to array pointer: length too short")
		}
		var v value = arrayV(s[:n:n])
		fr.set(x, &v)
	case *ssa.MakeInterface:
		fr.set(x, iface{t: x.X.Type(), v: copyVal(fr.get(x.X))})
	case *ssa.Extract:
		fr.set(x, fr.get(x.Tuple).(tuple)[x.Index])
	case *ssa.Slice:
		fr.set(x, fr.slice(x))
	case *ssa.Return:
		switch len(x.Results) {
		case 0:
		case 1:
			fr.result = copyVal(fr.get(x.Results[0]))
		default:
			r := make(tuple, len(x.Results))
			for i, v := range x.Results {
				r[i] = copyVal(fr.get(v))
			}
			fr.result = r
		}
		return kReturn
	case *ssa.RunDefers:
		fr.runDefers()
		if fr.pan != nil {
			p := *fr.pan
			fr.pan = nil
			panic(p)
		}
	case *ssa.Panic:
		panic(targetPanic{fr.get(x.X)})
	case *ssa.Store:
		in.store(fr, fr.get(x.Addr), fr.get(x.Val))
	case *ssa.If:
		c := fr.get(x.Cond).(*Term)
		fr.prev = fr.block
		if in.branch(c) {
			fr.block = fr.block.Succs[0]
		} else {
			fr.block = fr.block.Succs[1]
		}
		return kJump
	case *ssa.Jump:
		fr.prev = fr.block
		fr.block = fr.block.Succs[0]
		return kJump
	case *ssa.Defer:
		var fn value
		var args []value
		fn, args = fr.prepareCall(&x.Call)
		if x.DeferStack != nil {
			panic(unsupported{"defer in range-over-func"})
		}
		fr.defers = append(fr.defers, deferred{fn: fn, args: args, call: &x.Call})
	case *ssa.Go:
		fn, args := fr.prepareCall(&x.Call)
		in.spawn(fr, fn, args)
	case *ssa.MakeChan:
		n := in.concInt(fr.get(x.Size).(*Term), "channel capacity")
		fr.set(x, &chanV{cap: n})
	case *ssa.Send:
		c := fr.get(x.Chan).(*chanV)
		in.chanSend(c, copyVal(fr.get(x.X)))
	case *ssa.Alloc:
		v := zero(tt, under(x.Type()).(*types.Pointer).Elem())
		p := new(value)
		*p = v
		fr.set(x, p)
	case *ssa.MakeSlice:
		l := in.concInt(fr.get(x.Len).(*Term), "slice length")
		c := in.concInt(fr.get(x.Cap).(*Term), "slice capacity")
		if l < 0 || l > c {
			in.goPanic("makeslice: len out of range")
		}
		if c > 1<<20 {
			panic(unsupported{"huge allocation"})
		}
		et := under(x.Type()).(*types.Slice).Elem()
		s := make([]value, c)
		for i := range s {
			s[i] = zero(tt, et)
		}
		fr.set(x, sliceV(s[:l]))
	case *ssa.MakeMap:
		fr.set(x, in.newMap())
	case *ssa.MakeClosure:
		c := &closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.env = append(c.env, fr.get(b))
		}
		fr.set(x, c)
	case *ssa.FieldAddr:
		p := in.ptr(fr.get(x.X))
		s, ok := (*p).(structV)
		if !ok {
			panic(unsupported{fmt.Sprintf("field address in %T", *p)})
		}
		fr.set(x, &s[x.Field])
	case *ssa.Field:
		fr.set(x, copyVal(fr.get(x.X).(structV)[x.Field]))
	case *ssa.IndexAddr:
		fr.set(x, fr.indexAddr(fr.get(x.X), fr.get(x.Index).(*Term), x.Index.Type()))
	case *ssa.Index:
		fr.set(x, fr.index(fr.get(x.X), fr.get(x.Index).(*Term), x.Index.Type()))
	case *ssa.Lookup:
		fr.set(x, fr.lookup(x))
	case *ssa.MapUpdate:
		m := fr.get(x.Map).(*mapV)
		in.noteMapWrite(fr, m)
		in.mapPut(m, under(x.Map.Type()).(*types.Map).Key(), fr.get(x.Key), fr.get(x.Value), tt.T)
	case *ssa.TypeAssert:
		fr.set(x, fr.typeAssert(x))
	case *ssa.Range:
		fr.set(x, fr.rangeIter(x))
	case *ssa.Next:
		fr.set(x, fr.next(x))
	case *ssa.Select:
		panic(unsupported{"select"})
	default:
		panic(unsupported{fmt.Sprintf("instruction %T", instr)})
	}
	return kNext
}

func (in *Interp) spawn(fr *frame, fn value, args []value) {
	// sequentialised: the goroutine runs to completion at its start
	func() {
		defer func() {
			if r := recover(); r != nil {
				panic(r) // a panic in a goroutine ends the program as well
			}
		}()
		in.callValue(nil, fn, args, nil)
	}()
	in.pathNote = append(in.pathNote, "goroutine run to completion at its go statement")
}

func (in *Interp) chanSend(c *chanV, v value) {
	if c == nil {
		panic(unsupported{"blocking channel operation"})
	}
	if c.closed {
		in.goPanic("send on closed channel")
	}
	c.buf = append(c.buf, v) // unbuffered sends are treated as buffered (goroutines run eagerly)
}

func (in *Interp) concInt(t *Term, what string) int {
	if t.isConst() {
		return int(t.sval())
	}
	for i := 0; i < 64; i++ {
		if in.branch(in.tt.Eq(t, in.tt.BV(uint64(i), int(t.sort.w)))) {
			return i
		}
	}
	panic(abortPath{what + " bound (64)"})
}

func (in *Interp) ptr(v value) *value {
	switch p := v.(type) {
	case *value:
		if p == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		return p
	case *symElem:
		return p.concretize(in)
	}
	panic(unsupported{fmt.Sprintf("pointer %T", v)})
}

// symElem is the address of an element at a symbolic index, all elements being scalars.
type symElem struct {
	arr []value
	idx *Term
}

func (p *symElem) concretize(in *Interp) *value {
	for i := range p.arr {
		if i == len(p.arr)-1 || in.branch(in.tt.Eq(p.idx, in.tt.BV(uint64(i), int(p.idx.sort.w)))) {
			return &p.arr[i]
		}
	}
	panic("unreachable")
}
func (p *symElem) load(in *Interp) value {
	tt := in.tt
	r := p.arr[len(p.arr)-1].(*Term)
	// runs of equal elements
	for i := len(p.arr) - 2; i >= 0; i-- {
		e := p.arr[i].(*Term)
		if e == r && r == p.arr[len(p.arr)-1].(*Term) {
			continue
		}
		j := i
		for j > 0 && p.arr[j-1].(*Term) == e {
			j--
		}
		var c *Term
		if j == i {
			c = tt.Eq(p.idx, tt.BV(uint64(i), int(p.idx.sort.w)))
		} else {
			c = tt.Cmp(OUle, p.idx, tt.BV(uint64(i), int(p.idx.sort.w)))
		}
		r = tt.Ite(c, e, r)
		i = j
	}
	return r
}

func (in *Interp) inRange(i *Term, n int, it types.Type) {
	if i.isConst() {
		if isSigned(it) {
			if v := i.sval(); v < 0 || v >= int64(n) {
				in.goPanic(fmt.Sprintf("index out of range [%d] with length %d", v, n))
			}
		} else if i.val >= uint64(n) {
			in.goPanic(fmt.Sprintf("index out of range [%d] with length %d", i.val, n))
		}
		return
	}
	w := int(i.sort.w)
	if w < 63 && n >= 1<<uint(w) && !isSigned(it) {
		return
	}
	var ok *Term
	if w < 31 && n >= 1<<uint(w) {
		ok = in.tt.Cmp(OSle, in.tt.BV(0, w), i)
	} else {
		ok = in.tt.Cmp(OUlt, i, in.tt.BV(uint64(n), w))
	}
	if !in.branch(ok) {
		in.goPanic(fmt.Sprintf("index out of range with length %d", n))
	}
}

func scalars(a []value) bool {
	for _, x := range a {
		if _, ok := x.(*Term); !ok {
			return false
		}
	}
	return len(a) > 0
}

func (fr *frame) indexAddr(x value, i *Term, it types.Type) value {
	in := fr.in
	var a []value
	switch s := x.(type) {
	case sliceV:
		a = s
	case *value:
		if s == nil {
			in.goPanic("invalid memory address or nil pointer dereference")
		}
		a = []value((*s).(arrayV))
	default:
		panic(unsupported{fmt.Sprintf("index address of %T", x)})
	}
	in.inRange(i, len(a), it)
	if i.isConst() {
		return &a[i.val]
	}
	if scalars(a) {
		return &symElem{a, i}
	}
	return (&symElem{a, i}).concretize(in)
}

func (fr *frame) index(x value, i *Term, it types.Type) value {
	in := fr.in
	switch s := x.(type) {
	case arrayV:
		in.inRange(i, len(s), it)
		if i.isConst() {
			return copyVal(s[i.val])
		}
		if scalars(s) {
			return (&symElem{s, i}).load(in)
		}
		return copyVal(*(&symElem{s, i}).concretize(in))
	case Str:
		return in.strIndex(s, i, it)
	}
	panic(unsupported{fmt.Sprintf("index of %T", x)})
}

func (in *Interp) strIndex(s Str, i *Term, it types.Type) value {
	if s.hasOpq() {
		panic(unsupported{"indexing the text of a symbolic number"})
	}
	l := s.list(in.tt)
	in.inRange(i, len(l), it)
	if i.isConst() {
		return l[i.val].b
	}
	a := make([]value, len(l))
	for j := range l {
		a[j] = l[j].b
	}
	return (&symElem{a, i}).load(in)
}

func (fr *frame) lookup(x *ssa.Lookup) value {
	in := fr.in
	base := fr.get(x.X)
	if s, ok := base.(Str); ok {
		return in.strIndex(s, fr.get(x.Index).(*Term), x.Index.Type())
	}
	m := base.(*mapV)
	mt := under(x.X.Type()).(*types.Map)
	in.noteMapRead(fr, m)
	e := in.mapFind(m, mt.Key(), fr.get(x.Index))
	var v value
	if e != nil {
		v = copyVal(e.v)
	} else {
		v = zero(in.tt, mt.Elem())
	}
	if x.CommaOk {
		return tuple{v, in.tt.Bool(e != nil)}
	}
	return v
}

func (fr *frame) typeAssert(x *ssa.TypeAssert) value {
	in := fr.in
	v := fr.get(x.X).(iface)
	ok := false
	var r value
	if it, isI := under(x.AssertedType).(*types.Interface); isI {
		if v.t != nil && in.implements(v.t, it, x.AssertedType) {
			ok = true
			r = v
		}
	} else if v.t != nil && types.Identical(v.t, x.AssertedType) {
		ok = true
		r = copyVal(v.v)
	}
	if x.CommaOk {
		if !ok {
			r = zero(in.tt, x.AssertedType)
		}
		return tuple{r, in.tt.Bool(ok)}
	}
	if !ok {
		from := "nil"
		if v.t != nil {
			from = v.t.String()
		}
		in.goPanic("interface conversion: interface is " + from + ", not " + x.AssertedType.String())
	}
	return r
}

type mapIter struct {
	m    *mapV
	rest []*mapEntry
	perm bool
}
type strIter struct {
	l []seg
	i int
}

func (fr *frame) rangeIter(x *ssa.Range) value {
	in := fr.in
	switch b := fr.get(x.X).(type) {
	case Str:
		if b.hasOpq() {
			panic(unsupported{"range over the text of a symbolic number"})
		}
		return &strIter{l: b.list(in.tt)}
	case *mapV:
		in.noteMapRead(fr, b)
		it := &mapIter{m: b, perm: in.permute && fr.info.repo}
		if b != nil {
			it.rest = append(it.rest, b.es...)
		}
		return it
	}
	panic(unsupported{fmt.Sprintf("range over %T", fr.get(x.X))})
}

func (fr *frame) next(x *ssa.Next) value {
	in := fr.in
	tt := in.tt
	switch it := fr.get(x.Iter).(type) {
	case *strIter:
		if it.i >= len(it.l) {
			return tuple{tt.F, tt.BV(0, 64), tt.BV(0, 32)}
		}
		pos := it.i
		r, n := in.decodeRune(it.l[it.i:])
		it.i += n
		return tuple{tt.T, tt.BV(uint64(pos), 64), r}
	case *mapIter:
		var cand []*mapEntry
		for _, e := range it.rest {
			live := false
			for _, f := range it.m.es {
				if f == e {
					live = true
				}
			}
			if live && in.branch(e.present) {
				cand = append(cand, e)
				if !it.perm {
					break
				}
			} else if !it.perm {
				// skip a dead entry
				continue
			}
		}
		mt := under(x.Iter.(*ssa.Range).X.Type()).(*types.Map)
		if len(cand) == 0 {
			return tuple{tt.F, zero(tt, mt.Key()), zero(tt, mt.Elem())}
		}
		i := 0
		if it.perm && len(cand) > 1 {
			i = in.choose(len(cand))
		}
		e := cand[i]
		var rest []*mapEntry
		seen := false
		for _, f := range it.rest {
			if f == e {
				seen = true
				continue
			}
			if it.perm || seen {
				rest = append(rest, f)
			}
		}
		it.rest = rest
		return tuple{tt.T, copyVal(e.k), copyVal(e.v)}
	}
	panic("next")
}

// decodeRune decodes the first rune of l (symbolic bytes are ASCII by assumption of the bound).
func (in *Interp) decodeRune(l []seg) (*Term, int) {
	tt := in.tt
	b := l[0].b
	if b.isConst() {
		if b.val < 0x80 {
			return tt.BV(b.val, 32), 1
		}
		var buf []byte
		for _, x := range l {
			if x.o != nil || !x.b.isConst() || len(buf) == 4 {
				break
			}
			buf = append(buf, byte(x.b.val))
		}
		for i, r := range string(buf) {
			_ = i
			n := len(string(r))
			if r == 0xfffd && !(len(buf) >= 3 && string(buf[:3]) == "\uFFFD") {
				n = 1
			}
			return tt.BV(uint64(r), 32), n
		}
	}
	if !in.branch(tt.Cmp(OUlt, b, tt.BV(0x80, 8))) {
		panic(abortPath{"non-ASCII symbolic byte (bound)"})
	}
	return tt.Ext(OZext, b, 32), 1
}
