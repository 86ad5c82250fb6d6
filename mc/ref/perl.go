package ref

import "fmt"

type perlData struct {
	seen map[[2]*Node]bool
	fwd  map[*Node]*Node
	back map[*Node]*Node
}

// SamePerl tells whether two parsed documents describe the same Perl data: the
// same items, and references that lead to the same array or hash in one do so
// in the other. Whether a hash key is text or binary, and the order of keys, does not matter.
func SamePerl(want, got *Node) error {
	p := &perlData{seen: map[[2]*Node]bool{}, fwd: map[*Node]*Node{}, back: map[*Node]*Node{}}
	return p.cmp(want, got, "top")
}

func (p *perlData) cmp(e, a *Node, path string) error {
	if p.seen[[2]*Node{e, a}] {
		return nil
	}
	p.seen[[2]*Node{e, a}] = true
	diff := func(f string, x ...interface{}) error {
		return fmt.Errorf("at %s: "+f, append([]interface{}{path}, x...)...)
	}
	if e.Kind != a.Kind || e.B != a.B || e.Neg != a.Neg || e.S != a.S || e.S2 != a.S2 || len(e.Kids) != len(a.Kids) {
		return diff("%v %s instead of %v %s", a.Kind, a.Brief(), e.Kind, e.Brief())
	}
	if e.Kind == Array || e.Kind == Hash {
		if was := p.fwd[e]; was != nil && was != a {
			return diff("two references to one %v lead to different ones", e.Kind)
		}
		if was := p.back[a]; was != nil && was != e {
			return diff("references to different %vs lead to the same one", e.Kind)
		}
		p.fwd[e], p.back[a] = a, e
	}
	if e.Kind == Hash {
		ei, ai := e.order(), a.order()
		for i := range ei {
			if ek, ak := e.Keys[ei[i]], a.Keys[ai[i]]; ek.S != ak.S {
				return diff("key %q instead of %q", ak.S, ek.S)
			}
			if err := p.cmp(e.Kids[ei[i]], a.Kids[ai[i]], Path(path, "{"+clip(e.Keys[ei[i]].S)+"}")); err != nil {
				return err
			}
		}
		return nil
	}
	if e.Kind == Freeze {
		e, a = frozen(e), frozen(a) // nothing refers to the array around the data
	}
	for i := range e.Kids {
		if err := p.cmp(e.Kids[i], a.Kids[i], PathN(path, "/%d", i)); err != nil {
			return err
		}
	}
	return nil
}

func frozen(n *Node) *Node { return n.Kids[0].Kids[0] }

// PerlShaped tells whether arrays and hashes are only found behind references,
// and references only lead to items of their own, as in what Perl writes.
func PerlShaped(n *Node) bool {
	seen := map[*Node]bool{}
	var rec func(n *Node, ref bool) bool
	rec = func(n *Node, ref bool) bool {
		if (n.Kind == Array || n.Kind == Hash) && !ref {
			return false
		}
		if seen[n] {
			return true
		}
		seen[n] = true
		for _, k := range n.Kids {
			if !rec(k, n.Kind == Ref) {
				return false
			}
		}
		return true
	}
	return rec(n, false)
}
