package main

// Comparisons of floating-point terms known on the path, closed under transitivity.

type orderEdge struct {
	to     *Term
	strict bool
}

func (in *Interp) addOrder(a, b *Term, strict bool) {
	if in.order == nil {
		in.order = map[*Term][]orderEdge{}
	}
	in.order[a] = append(in.order[a], orderEdge{b, strict})
}

// notNaN tells whether a term is known not to be NaN.
func (in *Interp) notNaN(x *Term) bool {
	if x.isConst() {
		return x.f() == x.f()
	}
	if v, ok := in.litOf(in.tt.FIsNaN(x)); ok {
		return !v
	}
	return !in.rangeOf(x).nan
}

// below tells whether a <= b, and whether a < b, follow from the comparisons made.
func (in *Interp) below(a, b *Term) (le, lt bool) {
	const unseen, weak, strong = 0, 1, 2
	seen := map[*Term]int{a: weak}
	work := []*Term{a}
	for len(work) > 0 && len(seen) < 200 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		for _, e := range in.order[x] {
			k := seen[x]
			if e.strict {
				k = strong
			}
			if k > seen[e.to] {
				seen[e.to] = k
				work = append(work, e.to)
			}
		}
	}
	if a == b {
		return seen[b] == strong, false
	}
	return seen[b] != unseen, seen[b] == strong
}

// decideOrder decides a comparison by the comparisons made before.
func (in *Interp) decideOrder(c *Term) (bool, bool) {
	if len(in.order) == 0 || c.op != OFLt && c.op != OFLe {
		return false, false
	}
	a, b := c.args[0], c.args[1]
	if len(in.order[a]) == 0 && len(in.order[b]) == 0 {
		return false, false
	}
	le, lt := in.below(a, b)
	if lt || le && c.op == OFLe {
		return true, true
	}
	le, lt = in.below(b, a)
	if lt || le && c.op == OFLt {
		return false, true
	}
	if c.op == OFLe && in.notNaN(a) && in.notNaN(b) {
		// the strict comparison the other way round is what code branches on
		if v, ok := in.litOf(in.tt.FCmp(OFLt, b, a)); ok {
			return !v, true
		}
	}
	return false, false
}
