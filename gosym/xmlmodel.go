package main

import (
	"encoding/xml"
	"fmt"
	"go/types"
	"io"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A model of encoding/xml's Decoder over element trees whose names are concrete and whose attribute
// values and character data may be symbolic. The reflective struct decoding of Decoder.unmarshal is
// ported to go/types struct tags; UnmarshalXML methods of the code under test are interpreted.

type xtok struct {
	kind  byte // 's' start, 'e' end, 'c' chardata, '#' comment, '?' other
	space string
	name  Str
	attrs []xattr
	text  Str
	src   Str // source text of the token
}
type xattr struct {
	space string
	name  Str
	val   Str
}

// isName decides whether a possibly symbolic name is the given one.
func (in *Interp) isName(n Str, s string) bool {
	if n.conc() {
		return n.s == s
	}
	return in.branch(in.tt.strEq(n, S(s)))
}
func strV(v value, what string) Str {
	s, ok := v.(Str)
	if !ok {
		panic(unsupported{what + " that is not a text"})
	}
	return s
}
type xmlDec struct {
	toks []xtok
	pos  int
	stk  []byte // 's' or 'E'
	cut  bool   // the text may end early
}

func (in *Interp) xt(name string) types.Type {
	return in.P.prog.ImportedPackage("encoding/xml").Type(name).Type()
}

func (d *xmlDec) token(in *Interp) (*xtok, value) {
	if n := len(d.stk); n > 0 && d.stk[n-1] == 'E' {
		return nil, in.ioEOF()
	}
	if d.pos >= len(d.toks) {
		if len(d.stk) > 0 {
			return nil, in.mkErr(S("XML syntax error: unexpected EOF"))
		}
		return nil, in.ioEOF()
	}
	t := &d.toks[d.pos]
	d.pos++
	switch t.kind {
	case 's':
		d.stk = append(d.stk, 's')
	case 'e':
		d.stk = d.stk[:len(d.stk)-1]
	}
	return t, nil
}

func (in *Interp) ioEOF() value {
	g := in.P.prog.ImportedPackage("io").Var("EOF")
	return *in.global(g)
}

func (d *xmlDec) pushEOF() {
	// below the innermost start entry
	i := len(d.stk) - 1
	for i >= 0 && d.stk[i] != 's' {
		i--
	}
	if i < 0 {
		return
	}
	d.stk = append(d.stk[:i:i], append([]byte{'E'}, d.stk[i:]...)...)
}
func (d *xmlDec) popEOF() bool {
	n := len(d.stk)
	if n == 0 || d.stk[n-1] != 'E' {
		return false
	}
	d.stk = d.stk[:n-1]
	return true
}
func (d *xmlDec) skip(in *Interp) value {
	depth := 0
	for {
		t, err := d.token(in)
		if err != nil {
			return err
		}
		switch t.kind {
		case 's':
			depth++
		case 'e':
			if depth == 0 {
				return nil
			}
			depth--
		}
	}
}

func (in *Interp) nameV(space string, local Str) structV { return structV{S(space), local} }

func (in *Interp) attrsV(as []xattr) sliceV {
	r := sliceV{}
	for _, a := range as {
		r = append(r, structV{in.nameV(a.space, a.name), a.val})
	}
	return r
}

// bytesV is the []byte of a text; numerals stay opaque elements.
func (in *Interp) bytesV(s Str) sliceV {
	r := sliceV{}
	for _, g := range s.list(in.tt) {
		if g.o != nil {
			r = append(r, g.o)
		} else {
			r = append(r, g.b)
		}
	}
	return r
}

func (in *Interp) tokV(t *xtok) value {
	switch t.kind {
	case 's':
		return iface{t: in.xt("StartElement"), v: structV{in.nameV(t.space, t.name), in.attrsV(t.attrs)}}
	case 'e':
		return iface{t: in.xt("EndElement"), v: structV{in.nameV(t.space, t.name)}}
	case 'c':
		return iface{t: in.xt("CharData"), v: in.bytesV(t.text)}
	case '#':
		return iface{t: in.xt("Comment"), v: in.bytesV(t.text)}
	}
	return iface{t: in.xt("ProcInst"), v: structV{S("xml"), sliceV{}}}
}

// startOf converts an interpreted xml.StartElement back.
func (in *Interp) startOf(v value) *xtok {
	st := v.(structV)
	n := st[0].(structV)
	t := &xtok{kind: 's', space: mustCS(n[0], "element name"), name: strV(n[1], "element name")}
	as, _ := st[1].(sliceV)
	for _, a := range as {
		av := a.(structV)
		an := av[0].(structV)
		t.attrs = append(t.attrs, xattr{mustCS(an[0], "attribute name"), strV(an[1], "attribute name"), av[1].(Str)})
	}
	return t
}

type xfield struct {
	idx     []int
	name    string
	parents []string
	mode    string // element attr chardata innerxml any anyattr comment
	typ     types.Type
}

func xmlFields(t *types.Struct) (fs []xfield, xmlname *xfield) {
	for i := 0; i < t.NumFields(); i++ {
		f := t.Field(i)
		tag := reflect.StructTag(t.Tag(i)).Get("xml")
		if (!f.Exported() && !f.Embedded()) || tag == "-" {
			continue
		}
		if f.Embedded() {
			if st, ok := under(f.Type()).(*types.Struct); ok {
				sub, _ := xmlFields(st)
				for _, s := range sub {
					s.idx = append([]int{i}, s.idx...)
					fs = append(fs, s)
				}
				continue
			}
			if _, ok := under(f.Type()).(*types.Pointer); ok {
				panic(unsupported{"embedded pointer in an XML struct"})
			}
		}
		if j := strings.IndexByte(tag, ' '); j >= 0 {
			tag = tag[j+1:]
		}
		parts := strings.Split(tag, ",")
		x := xfield{idx: []int{i}, mode: "element", typ: f.Type()}
		for _, fl := range parts[1:] {
			switch fl {
			case "attr":
				if x.mode == "any" {
					x.mode = "anyattr"
				} else {
					x.mode = "attr"
				}
			case "any":
				if x.mode == "attr" {
					x.mode = "anyattr"
				} else {
					x.mode = "any"
				}
			case "chardata", "innerxml", "comment":
				x.mode = fl
			case "cdata":
				x.mode = "chardata"
			}
		}
		name := parts[0]
		if f.Name() == "XMLName" {
			x.name = name
			xmlname = &x
			continue
		}
		if name == "" {
			name = f.Name()
			ft := f.Type()
			if p, ok := under(ft).(*types.Pointer); ok {
				ft = p.Elem()
			}
			if st, ok := under(ft).(*types.Struct); ok {
				if _, xn := xmlFields(st); xn != nil && xn.name != "" {
					name = xn.name
				}
			}
		}
		ps := strings.Split(name, ">")
		x.name = ps[len(ps)-1]
		x.parents = ps[:len(ps)-1]
		fs = append(fs, x)
	}
	return
}

func fieldCell(sv structV, idx []int) *value {
	for _, i := range idx[:len(idx)-1] {
		sv = sv[i].(structV)
	}
	return &sv[idx[len(idx)-1]]
}

// asUnmarshaler finds method name on t or *t with a pointer to cell.
func (in *Interp) asUnmarshaler(t types.Type, cell *value, name string) (*ssa.Function, value) {
	if _, isI := under(t).(*types.Interface); isI {
		return nil, nil
	}
	if m := in.findMethod(t, name); m != nil {
		if _, isPtr := under(t).(*types.Pointer); !isPtr {
			return m, copyVal(*cell)
		}
	}
	if _, named := types.Unalias(t).(*types.Named); named {
		pt := types.NewPointer(t)
		if m := in.findMethod(pt, name); m != nil {
			return m, cell
		}
	}
	return nil, nil
}

func errIface(v value) value {
	if v == nil {
		return iface{}
	}
	return v
}
func isNilErr(v value) bool {
	if v == nil {
		return true
	}
	e, ok := v.(iface)
	return ok && e.t == nil
}

func (in *Interp) xmlUnmarshal(fr *frame, dp *value, d *xmlDec, t types.Type, cell *value, start *xtok) value {
	if start == nil {
		for {
			tk, err := d.token(in)
			if err != nil {
				return err
			}
			if tk.kind == 's' {
				start = tk
				break
			}
		}
	}
	if _, ok := under(t).(*types.Interface); ok {
		if e := (*cell).(iface); e.t != nil {
			if pt, ok := under(e.t).(*types.Pointer); ok {
				if p := e.v.(*value); p != nil {
					return in.xmlUnmarshal(fr, dp, d, pt.Elem(), p, start)
				}
			}
		}
	}
	if pt, ok := under(t).(*types.Pointer); ok {
		p := (*cell).(*value)
		if p == nil {
			v := zero(in.tt, pt.Elem())
			p = &v
			*cell = p
		}
		t, cell = pt.Elem(), p
	}
	if m, recv := in.asUnmarshaler(t, cell, "UnmarshalXML"); m != nil {
		d.pushEOF()
		sv := structV{in.nameV(start.space, start.name), in.attrsV(start.attrs)}
		err := in.call(fr, m, []value{recv, dp, sv}, nil)
		if !isNilErr(err) {
			d.popEOF()
			return err
		}
		if !d.popEOF() {
			return in.mkErr(S("xml: " + types.TypeString(t, nil) + ".UnmarshalXML did not consume entire element"))
		}
		return nil
	}
	if m, _ := in.asUnmarshaler(t, cell, "UnmarshalText"); m != nil {
		panic(unsupported{"UnmarshalText"})
	}
	var saveData *value
	var saveDataT types.Type
	var saveXML, saveAny *value
	var saveAnyT types.Type
	var data, inner Str
	var sv structV
	var fs []xfield
	switch u := under(t).(type) {
	case *types.Interface:
		return d.skip(in)
	case *types.Slice:
		if b, ok := under(u.Elem()).(*types.Basic); ok && b.Kind() == types.Uint8 {
			saveData, saveDataT = cell, t
			break
		}
		s, _ := (*cell).(sliceV)
		nv := zero(in.tt, u.Elem())
		n := append(append(make(sliceV, 0, len(s)+1), s...), nv)
		err := in.xmlUnmarshal(fr, dp, d, u.Elem(), &n[len(s)], start)
		if !isNilErr(err) {
			return err
		}
		*cell = n
		return nil
	case *types.Basic:
		saveData, saveDataT = cell, t
	case *types.Struct:
		sv = (*cell).(structV)
		var xn *xfield
		fs, xn = xmlFields(u)
		if xn != nil {
			if xn.name != "" && !in.isName(start.name, xn.name) {
				return in.mkErr(S("expected element type <" + xn.name + ">"))
			}
			if types.TypeString(xn.typ, nil) == "encoding/xml.Name" {
				*fieldCell(sv, xn.idx) = in.nameV(start.space, start.name)
			}
		}
		for _, a := range start.attrs {
			handled := false
			var any *xfield
			for i := range fs {
				switch fs[i].mode {
				case "attr":
					if in.isName(a.name, fs[i].name) {
						if err := in.xmlAttr(fr, fs[i].typ, fieldCell(sv, fs[i].idx), a); !isNilErr(err) {
							return err
						}
						handled = true
					}
				case "anyattr":
					if any == nil {
						any = &fs[i]
					}
				}
			}
			if !handled && any != nil {
				if err := in.xmlAttr(fr, any.typ, fieldCell(sv, any.idx), a); !isNilErr(err) {
					return err
				}
			}
		}
		for i := range fs {
			c := fieldCell(sv, fs[i].idx)
			switch fs[i].mode {
			case "chardata":
				if saveData == nil {
					saveData, saveDataT = c, fs[i].typ
				}
			case "innerxml":
				if saveXML == nil {
					saveXML = c
				}
			case "any":
				if saveAny == nil {
					saveAny, saveAnyT = c, fs[i].typ
				}
			}
		}
	default:
		return in.mkErr(S("unknown type " + t.String()))
	}
	p0 := d.pos
loop:
	for {
		p1 := d.pos
		tk, err := d.token(in)
		if err != nil {
			return err
		}
		switch tk.kind {
		case 's':
			consumed := false
			if sv != nil {
				var err value
				consumed, err = in.xmlPath(fr, dp, d, fs, sv, nil, tk)
				if !isNilErr(err) {
					return err
				}
				if !consumed && saveAny != nil {
					consumed = true
					if err := in.xmlUnmarshal(fr, dp, d, saveAnyT, saveAny, tk); !isNilErr(err) {
						return err
					}
				}
			}
			if !consumed {
				if err := d.skip(in); err != nil {
					return err
				}
			}
		case 'e':
			for _, x := range d.toks[p0:p1] {
				inner = strConcat(in.tt, inner, x.src)
			}
			break loop
		case 'c':
			if saveData != nil {
				data = strConcat(in.tt, data, tk.text)
			}
		}
	}
	if saveData != nil {
		if err := in.xmlCopy(fr, saveDataT, saveData, data); !isNilErr(err) {
			return err
		}
	}
	if saveXML != nil {
		if _, ok := (*saveXML).(Str); ok {
			*saveXML = inner
		} else {
			*saveXML = in.bytesV(inner)
		}
	}
	return nil
}

func (in *Interp) xmlPath(fr *frame, dp *value, d *xmlDec, fs []xfield, sv structV, parents []string, start *xtok) (bool, value) {
	recurse := false
loop:
	for i := range fs {
		f := &fs[i]
		if f.mode != "element" && f.mode != "any" || len(f.parents) < len(parents) {
			continue
		}
		if f.mode == "any" {
			continue
		}
		for j := range parents {
			if parents[j] != f.parents[j] {
				continue loop
			}
		}
		if len(f.parents) == len(parents) && in.isName(start.name, f.name) {
			return true, in.xmlUnmarshal(fr, dp, d, f.typ, fieldCell(sv, f.idx), start)
		}
		if len(f.parents) > len(parents) && in.isName(start.name, f.parents[len(parents)]) {
			recurse = true
			parents = f.parents[:len(parents)+1]
			break
		}
	}
	if !recurse {
		return false, nil
	}
	for {
		tk, err := d.token(in)
		if err != nil {
			return true, err
		}
		switch tk.kind {
		case 's':
			c, err := in.xmlPath(fr, dp, d, fs, sv, parents, tk)
			if !isNilErr(err) {
				return true, err
			}
			if !c {
				if err := d.skip(in); err != nil {
					return true, err
				}
			}
		case 'e':
			return true, nil
		}
	}
}

func (in *Interp) xmlAttr(fr *frame, t types.Type, cell *value, a xattr) value {
	if pt, ok := under(t).(*types.Pointer); ok {
		p := (*cell).(*value)
		if p == nil {
			v := zero(in.tt, pt.Elem())
			p = &v
			*cell = p
		}
		t, cell = pt.Elem(), p
	}
	if m, recv := in.asUnmarshaler(t, cell, "UnmarshalXMLAttr"); m != nil {
		return in.call(fr, m, []value{recv, structV{in.nameV(a.space, a.name), a.val}}, nil)
	}
	if m, recv := in.asUnmarshaler(t, cell, "UnmarshalText"); m != nil {
		return in.call(fr, m, []value{recv, in.bytesV(a.val)}, nil)
	}
	if s, ok := under(t).(*types.Slice); ok {
		if b, ok := under(s.Elem()).(*types.Basic); !ok || b.Kind() != types.Uint8 {
			cur, _ := (*cell).(sliceV)
			n := append(append(make(sliceV, 0, len(cur)+1), cur...), zero(in.tt, s.Elem()))
			if err := in.xmlAttr(fr, s.Elem(), &n[len(cur)], a); !isNilErr(err) {
				return err
			}
			*cell = n
			return nil
		}
	}
	if types.TypeString(t, nil) == "encoding/xml.Attr" {
		*cell = structV{in.nameV(a.space, a.name), a.val}
		return nil
	}
	return in.xmlCopy(fr, t, cell, a.val)
}

func (in *Interp) std(pkg, fn string, args ...value) value {
	return in.call(nil, in.P.prog.ImportedPackage(pkg).Func(fn), args, nil)
}

func (in *Interp) xmlCopy(fr *frame, t types.Type, cell *value, src Str) value {
	tt := in.tt
	if pt, ok := under(t).(*types.Pointer); ok {
		p := (*cell).(*value)
		if p == nil {
			v := zero(tt, pt.Elem())
			p = &v
			*cell = p
		}
		t, cell = pt.Elem(), p
	}
	switch u := under(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			*cell = src
			return nil
		}
		s, ok := basicSort(u)
		if !ok {
			break
		}
		if src.conc() && src.s == "" {
			*cell = zero(tt, t)
			return nil
		}
		src = in.std("strings", "TrimSpace", src).(Str)
		var r tuple
		switch {
		case s.k == KBool:
			r = in.std("strconv", "ParseBool", src).(tuple)
		case s.k == KBV && u.Info()&types.IsUnsigned != 0:
			r = in.std("strconv", "ParseUint", src, in.int(10), in.int(int(s.w))).(tuple)
		case s.k == KBV:
			r = in.std("strconv", "ParseInt", src, in.int(10), in.int(int(s.w))).(tuple)
		default:
			w := 64
			if s.k == KF32 {
				w = 32
			}
			r = in.std("strconv", "ParseFloat", src, in.int(w)).(tuple)
		}
		if !isNilErr(r[1]) {
			return r[1]
		}
		v := r[0].(*Term)
		switch s.k {
		case KBV:
			v = tt.Extract(v, int(s.w)-1, 0)
		case KF32:
			v = tt.FtoF(v, SF32)
		}
		*cell = v
		return nil
	case *types.Slice:
		*cell = in.bytesV(src)
		return nil
	}
	return in.mkErr(S("cannot unmarshal into " + t.String()))
}

// ---- trees ----

func escText(s string) string {
	var sb strings.Builder
	xml.EscapeText(&sb, []byte(s))
	return sb.String()
}

func (in *Interp) esc(s Str) Str {
	if s.conc() {
		return S(escText(s.s))
	}
	return s // symbolic characters are assumed to need no escaping (harness assumption)
}

// flatten turns an interpreted *sym.X into tokens.
func (in *Interp) flatten(p *value, out *[]xtok) {
	n := (*p).(structV) // Name, Attrs, Kids, Text
	name := strV(n[0], "element name")
	text := n[3].(Str)
	cat := func(a ...Str) Str {
		r := S("")
		for _, x := range a {
			r = strConcat(in.tt, r, x)
		}
		return r
	}
	special := "element"
	if name.conc() {
		special = name.s
	}
	switch special {
	case "":
		if text.conc() && text.s == "" {
			return
		}
		if k := len(*out); k > 0 && (*out)[k-1].kind == 'c' { // adjacent text is one token
			(*out)[k-1].text = cat((*out)[k-1].text, text)
			(*out)[k-1].src = cat((*out)[k-1].src, in.esc(text))
			return
		}
		*out = append(*out, xtok{kind: 'c', text: text, src: in.esc(text)})
		return
	case "#comment":
		*out = append(*out, xtok{kind: '#', text: text, src: cat(S("<!--"), text, S("-->"))})
		return
	}
	st := xtok{kind: 's', name: name}
	src := cat(S("<"), name)
	as, _ := n[1].(sliceV)
	for _, a := range as {
		av := a.(structV)
		an := strV(av[0], "attribute name")
		st.attrs = append(st.attrs, xattr{name: an, val: av[1].(Str)})
		src = cat(src, S(" "), an, S("=\""), in.esc(av[1].(Str)), S("\""))
	}
	st.src = cat(src, S(">"))
	*out = append(*out, st)
	kids, _ := n[2].(sliceV)
	for _, k := range kids {
		kp, _ := k.(*value)
		if kp != nil {
			in.flatten(kp, out)
		}
	}
	*out = append(*out, xtok{kind: 'e', name: name, src: cat(S("</"), name, S(">"))})
}

func (in *Interp) newDecoder(toks []xtok) (*value, *xmlDec) {
	v := zero(in.tt, in.xt("Decoder"))
	d := &xmlDec{toks: toks}
	in.decoders[&v] = d
	return &v, d
}

func (in *Interp) decodeInto(fr *frame, dp *value, d *xmlDec, v iface, start *xtok) value {
	pt, ok := under(v.t).(*types.Pointer)
	if v.t == nil || !ok {
		return in.mkErr(S("non-pointer passed to Unmarshal"))
	}
	p := v.v.(*value)
	if p == nil {
		return in.mkErr(S("nil pointer passed to Unmarshal"))
	}
	return errIface(in.xmlUnmarshal(fr, dp, d, pt.Elem(), p, start))
}

func xmlDecodeTree(fr *frame, a []value) value {
	in := fr.in
	var toks []xtok
	in.flatten(in.ptr(a[0]), &toks)
	dp, d := in.newDecoder(toks)
	return in.decodeInto(fr, dp, d, a[1].(iface), nil)
}

// xmlDecodePart decodes the first k tokens of a tree.
func xmlDecodePart(fr *frame, a []value) value {
	in := fr.in
	var toks []xtok
	in.flatten(in.ptr(a[0]), &toks)
	k := a[1].(*Term)
	if !k.isConst() {
		panic(unsupported{"symbolic cut"})
	}
	if n := int(k.val); n < len(toks) {
		toks = toks[:n]
	}
	dp, d := in.newDecoder(toks)
	d.cut = true
	return in.decodeInto(fr, dp, d, a[2].(iface), nil)
}

func xmlTokens(fr *frame, a []value) value {
	var toks []xtok
	fr.in.flatten(fr.in.ptr(a[0]), &toks)
	return fr.in.int(len(toks))
}

// textTokens tokenizes concrete XML with the real lexer.
func textTokens(s string) ([]xtok, error) {
	d := xml.NewDecoder(strings.NewReader(s))
	var r []xtok
	off := int64(0)
	for {
		t, err := d.Token()
		if err == io.EOF {
			return r, nil
		}
		if err != nil {
			return r, err
		}
		end := d.InputOffset()
		src := S(s[off:end])
		off = end
		switch x := t.(type) {
		case xml.StartElement:
			k := xtok{kind: 's', space: x.Name.Space, name: S(x.Name.Local), src: src}
			for _, a := range x.Attr {
				k.attrs = append(k.attrs, xattr{a.Name.Space, S(a.Name.Local), S(a.Value)})
			}
			r = append(r, k)
		case xml.EndElement:
			r = append(r, xtok{kind: 'e', space: x.Name.Space, name: S(x.Name.Local), src: src})
		case xml.CharData:
			r = append(r, xtok{kind: 'c', text: S(string(x)), src: src})
		case xml.Comment:
			r = append(r, xtok{kind: '#', text: S(string(x)), src: src})
		default:
			r = append(r, xtok{kind: '?', src: src})
		}
	}
}

func initXML(m map[string]intrinsic) {
	dec := func(fr *frame, a []value) (*value, *xmlDec) {
		p := fr.in.ptr(a[0])
		d := fr.in.decoders[p]
		if d == nil {
			panic(unsupported{"xml.Decoder outside the model"})
		}
		return p, d
	}
	m["(*encoding/xml.Decoder).Token"] = always(func(fr *frame, a []value) value {
		_, d := dec(fr, a)
		t, err := d.token(fr.in)
		if err != nil {
			return tuple{iface{}, err}
		}
		return tuple{fr.in.tokV(t), iface{}}
	})
	m["(*encoding/xml.Decoder).RawToken"] = always(func(fr *frame, a []value) value { panic(unsupported{"RawToken"}) })
	m["(*encoding/xml.Decoder).Skip"] = always(func(fr *frame, a []value) value {
		_, d := dec(fr, a)
		return errIface(d.skip(fr.in))
	})
	m["(*encoding/xml.Decoder).DecodeElement"] = always(func(fr *frame, a []value) value {
		p, d := dec(fr, a)
		var st *xtok
		if sp, ok := a[2].(*value); ok && sp != nil {
			st = fr.in.startOf(*sp)
		}
		return fr.in.decodeInto(fr, p, d, a[1].(iface), st)
	})
	m["(*encoding/xml.Decoder).Decode"] = always(func(fr *frame, a []value) value {
		p, d := dec(fr, a)
		return fr.in.decodeInto(fr, p, d, a[1].(iface), nil)
	})
	m["(*encoding/xml.Decoder).InputOffset"] = always(func(fr *frame, a []value) value {
		_, d := dec(fr, a)
		return fr.in.int(d.pos)
	})
	text := func(fr *frame, s string, v iface) value {
		toks, err := textTokens(s)
		if err != nil {
			panic(unsupported{"malformed XML text: " + err.Error()})
		}
		dp, d := fr.in.newDecoder(toks)
		return fr.in.decodeInto(fr, dp, d, v, nil)
	}
	m["encoding/xml.Unmarshal"] = always(func(fr *frame, a []value) value {
		var l []seg
		for _, e := range a[0].(sliceV) {
			l = append(l, seg{b: e.(*Term)})
		}
		return text(fr, mustCS(mkStr(l), "XML text"), a[1].(iface))
	})
	m[symPkg+"DecodeText"] = always(func(fr *frame, a []value) value {
		return text(fr, mustCS(a[0], "XML text"), a[1].(iface))
	})
}

var _ = fmt.Sprint
