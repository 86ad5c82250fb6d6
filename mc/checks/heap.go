package checks

import (
	"fmt"
	"reflect"

	"verif/mc/ref"

	"github.com/Sereal/Sereal/Go/sereal"
)

// heapGrammar says what graphs of values with pointers are made of.
type heapGrammar struct {
	tokens   int
	maxKids  int
	leaves   []interface{}
	slices   bool // []interface{}
	maps     bool // map[string]interface{}
	boxes    bool // *interface{}
	pslices  bool // *[]interface{}
	pmaps    bool // *map[string]interface{}
	ppp      bool // pointers to pointers
	strs     bool // *string and *int
	structs  bool // *hs
	perl     bool // Perl types
	noCycles bool // pointers are used again only when they are complete
	shallow  bool // maps and slices are used again without a pointer, too
}

// hs is a struct with references.
type hs struct {
	V interface{}
	P *hs
}

type heapGen struct {
	*heapGrammar
	c    *Ctx
	left int
	ptrs []interface{} // that exist
	keys int
}

func (g heapGrammar) value(c *Ctx) interface{} {
	h := &heapGen{heapGrammar: &g, c: c, left: g.tokens}
	return h.value(0)
}

func (g *heapGen) made(p interface{}, fill func()) interface{} {
	if !g.noCycles {
		g.ptrs = append(g.ptrs, p)
	}
	fill()
	if g.noCycles {
		g.ptrs = append(g.ptrs, p)
	}
	return p
}

func (g *heapGen) value(reserve int) interface{} {
	g.left--
	avail := g.left - reserve
	var alts []func() interface{}
	add := func(on bool, f func() interface{}) {
		if on {
			alts = append(alts, f)
		}
	}
	for _, l := range g.leaves {
		l := l
		add(true, func() interface{} { return l })
	}
	fillSlice := func(s []interface{}) {
		for i := range s {
			s[i] = g.value(reserve + len(s) - 1 - i)
		}
	}
	fillMap := func(m map[string]interface{}, n int) {
		for i := 0; i < n; i++ {
			g.keys++
			m[string(rune('a'+(g.keys-1)%3+3*i))] = g.value(reserve + n - 1 - i)
		}
	}
	for k := 0; k <= g.maxKids && k <= avail; k++ {
		k := k
		add(g.slices, func() interface{} {
			s := make([]interface{}, k)
			if g.shallow {
				return g.made(s, func() { fillSlice(s) })
			}
			fillSlice(s)
			return s
		})
		add(g.maps, func() interface{} {
			m := map[string]interface{}{}
			if g.shallow {
				return g.made(m, func() { fillMap(m, k) })
			}
			fillMap(m, k)
			return m
		})
		add(g.pslices, func() interface{} {
			s := make([]interface{}, k)
			return g.made(&s, func() { fillSlice(s) })
		})
		add(g.pmaps, func() interface{} {
			m := map[string]interface{}{}
			return g.made(&m, func() { fillMap(m, k) })
		})
	}
	if avail >= 1 {
		add(g.boxes, func() interface{} {
			p := new(interface{})
			return g.made(p, func() { *p = g.value(reserve) })
		})
		add(g.ppp, func() interface{} {
			x := g.value(reserve)
			switch p := x.(type) {
			case *[]interface{}:
				return g.made(&p, func() {})
			case *map[string]interface{}:
				return g.made(&p, func() {})
			case *interface{}:
				return g.made(&p, func() {})
			}
			return g.made(&x, func() {})
		})
		add(g.structs, func() interface{} {
			p := &hs{}
			return g.made(p, func() { p.V = g.value(reserve) })
		})
		add(g.perl, func() interface{} { return &sereal.PerlObject{Class: "Cls", Reference: g.value(reserve)} })
		add(g.perl, func() interface{} {
			v := g.value(reserve)
			if k := reflect.ValueOf(v).Kind(); k != reflect.Ptr || v == interface{}(sereal.PerlCanonicalUndef()) {
				p := new(interface{}) // only references can be weak
				*p = v
				v = p
			} else if reflect.TypeOf(v).Elem().PkgPath() == perlPkg {
				v = &v
			}
			return sereal.PerlWeakRef{Reference: v}
		})
	}
	add(g.structs, func() interface{} {
		p := &hs{}
		for i := len(g.ptrs) - 1; i >= 0; i-- {
			if q, ok := g.ptrs[i].(*hs); ok {
				p.P = q
				break
			}
		}
		return g.made(p, func() {})
	})
	add(g.strs, func() interface{} { s := "str"; return g.made(&s, func() {}) })
	add(g.strs, func() interface{} { i := 42; return g.made(&i, func() {}) })
	add(g.perl, func() interface{} { return &sereal.PerlFreeze{Class: "Cls", Data: []byte("data")} })
	add(g.perl, func() interface{} { return sereal.PerlFreeze{Class: "a", Data: []byte("Cls")} })
	add(g.perl, func() interface{} { return &sereal.PerlRegexp{Pattern: []byte("Cls"), Modifiers: []byte("i")} })
	add(g.perl, func() interface{} { return sereal.PerlCanonicalUndef() })
	add(g.perl, func() interface{} { return sereal.PerlUndef{} })
	for _, p := range g.ptrs {
		p := p
		add(true, func() interface{} { return p })
	}
	return alts[g.c.Choose(len(alts))]()
}

var perlPkg = reflect.TypeOf(sereal.PerlObject{}).PkgPath()

// sameShape compares two values with pointers of the same type: want's pointers
// correspond one to one to got's.
type shapes struct {
	fwd  map[interface{}]interface{}
	back map[interface{}]interface{}
}

type ptrID struct {
	t reflect.Type
	p uintptr
}

func sameShape(want, got reflect.Value) error {
	s := &shapes{map[interface{}]interface{}{}, map[interface{}]interface{}{}}
	return s.cmp(want, got, "top")
}

func (s *shapes) cmp(w, g reflect.Value, path string) error {
	if w.Type() != g.Type() {
		return fmt.Errorf("at %s: %v instead of %v", path, g.Type(), w.Type())
	}
	switch w.Kind() {
	case reflect.Ptr:
		if w.IsNil() != g.IsNil() {
			return fmt.Errorf("at %s: nil pointer: %v, was %v", path, g.IsNil(), w.IsNil())
		}
		if w.IsNil() {
			return nil
		}
		wi, gi := ptrID{w.Type(), w.Pointer()}, ptrID{g.Type(), g.Pointer()}
		if x, ok := s.fwd[wi]; ok {
			if x != gi {
				return fmt.Errorf("at %s: pointers that were equal no longer are", path)
			}
			return nil
		}
		if _, ok := s.back[gi]; ok {
			return fmt.Errorf("at %s: pointers that were different are equal", path)
		}
		s.fwd[wi], s.back[gi] = gi, wi
		return s.cmp(w.Elem(), g.Elem(), ref.PathTo(path))
	case reflect.Struct:
		for i := 0; i < w.NumField(); i++ {
			if _, ok := fieldName(w.Type().Field(i)); !ok {
				continue
			}
			if err := s.cmp(w.Field(i), g.Field(i), ref.Path(path, "."+w.Type().Field(i).Name)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Slice, reflect.Array:
		if w.Len() != g.Len() {
			return fmt.Errorf("at %s: %d elements instead of %d", path, g.Len(), w.Len())
		}
		for i := 0; i < w.Len(); i++ {
			if err := s.cmp(w.Index(i), g.Index(i), ref.PathN(path, "[%d]", i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Map:
		if w.Len() != g.Len() {
			return fmt.Errorf("at %s: %d keys instead of %d", path, g.Len(), w.Len())
		}
		for _, k := range w.MapKeys() {
			x := g.MapIndex(k)
			if !x.IsValid() {
				return fmt.Errorf("at %s: no key %v", path, k)
			}
			if err := s.cmp(w.MapIndex(k), x, ref.PathN(path, "{%v}", k)); err != nil {
				return err
			}
		}
		return nil
	}
	return sameTyped(w, g, path)
}
