package ref

import "fmt"

type isomorphism struct {
	fwd, back map[*Node]*Node
}

// SameParsed tells whether two parsed documents say the same: the same items,
// and sharing exactly where there is sharing.
func SameParsed(want, got *Node) error {
	i := &isomorphism{map[*Node]*Node{}, map[*Node]*Node{}}
	return i.cmp(want, got, "top")
}

func (i *isomorphism) cmp(e, a *Node, path string) error {
	diff := func(f string, x ...interface{}) error {
		return fmt.Errorf("at %s: "+f, append([]interface{}{path}, x...)...)
	}
	if was := i.fwd[e]; was != nil {
		if was != a {
			return diff("%s is an item of its own, and should be the one that came before", a.Brief())
		}
		return nil
	}
	if i.back[a] != nil {
		return diff("%s is the same item as one that came before, and should be one of its own", a.Brief())
	}
	i.fwd[e], i.back[a] = a, e
	if e.Kind != a.Kind || e.B != a.B || e.Neg != a.Neg || e.S != a.S || e.S2 != a.S2 || len(e.Kids) != len(a.Kids) {
		return diff("%s instead of %s", a.Brief(), e.Brief())
	}
	for k := range e.Keys {
		if e.Keys[k] != a.Keys[k] {
			return diff("key %+v instead of %+v", a.Keys[k], e.Keys[k])
		}
	}
	for k := range e.Kids {
		if err := i.cmp(e.Kids[k], a.Kids[k], PathN(path, "/%d", k)); err != nil {
			return err
		}
	}
	return nil
}
