package props

import (
	"verif/harness/sym"
)

func init() { Registry["C29"] = C29_Damaged }

// elems lists the elements of a document.
func elems(x *sym.X, r []*sym.X) []*sym.X {
	if x.Name == "" {
		return r
	}
	r = append(r, x)
	for _, k := range x.Kids {
		r = elems(k, r)
	}
	return r
}

// change copies a document with the n-th element replaced by what f makes of it.
func change(x *sym.X, n *int, f func(*sym.X) *sym.X) *sym.X {
	if x.Name == "" {
		return x
	}
	*n--
	if *n == -1 {
		return f(x)
	}
	r := &sym.X{Name: x.Name, Attrs: x.Attrs, Text: x.Text}
	for _, k := range x.Kids {
		if c := change(k, n, f); c != nil {
			r.Kids = append(r.Kids, c)
		}
	}
	return r
}

// C29: decoding a damaged document ends, with an error when its end is missing.
func C29_Damaged() {
	doc, fresh := baseDoc(sym.Choose("document", 4))
	all := elems(doc, nil)
	n := sym.Choose("place", len(all))
	at := n
	e := all[n]
	sym.Assert(sym.DecodeXML(doc, fresh()) == nil, "the document does not decode")
	switch sym.Choose("damage", 6) {
	case 0: // cut off; the first tokens are enough to reach every place
		k := sym.Choose("tokens", sym.Tokens(doc))
		sym.Assume(n == 0)
		sym.Reach("cut")
		sym.Assert(sym.DecodePart(doc, k, fresh()) != nil, "a document that is cut off is accepted")
	case 1: // another element
		names := []string{"Node", "True", "SimplePredicate", "CompoundPredicate", "Apply", "Constant", "row", "InlineTable", "Segment", "MiningModel", "TreeModel", "RegressionModel", "DerivedField", "Extension", "PMML", "Alternate",
			"Array", "ScoreDistribution", "Partition", "GaussianDistribution", "ChildParent", "DefineFunction", "Foo"}
		name := names[sym.Choose("name", len(names))]
		sym.DecodeXML(change(doc, &at, func(x *sym.X) *sym.X { return &sym.X{Name: name, Attrs: x.Attrs, Kids: x.Kids, Text: x.Text} }), fresh())
		sym.Reach("renamed")
	case 2: // missing
		sym.Assume(n > 0)
		err := sym.DecodeXML(change(doc, &at, func(x *sym.X) *sym.X { return nil }), fresh())
		sym.Assert(err == nil, "a document without some element is rejected")
		sym.Reach("missing")
	case 3: // empty
		err := sym.DecodeXML(change(doc, &at, func(x *sym.X) *sym.X { return &sym.X{Name: x.Name, Attrs: x.Attrs} }), fresh())
		sym.Assert(err == nil, "a document with an empty element is rejected")
		sym.Reach("empty")
	case 4: // an attribute with any text
		sym.Assume(len(e.Attrs) > 0)
		a := sym.Choose("attribute", len(e.Attrs))
		v := printable("v", sym.Choose("length", 3))
		sym.DecodeXML(change(doc, &at, func(x *sym.X) *sym.X {
			r := &sym.X{Name: x.Name, Kids: x.Kids}
			for i, b := range x.Attrs {
				if i == a {
					b.Val = v
				}
				r.Attrs = append(r.Attrs, b)
			}
			return r
		}), fresh())
		sym.Reach("attribute")
	case 5: // text and a foreign element where none is expected
		s := printable("v", 2)
		x := change(doc, &at, func(x *sym.X) *sym.X {
			return &sym.X{Name: x.Name, Attrs: x.Attrs, Kids: append([]*sym.X{{Text: s}, {Name: letters("name", 2), Kids: []*sym.X{e}}}, x.Kids...)}
		})
		sym.DecodeXML(x, fresh())
		sym.Reach("foreign")
	}
}
