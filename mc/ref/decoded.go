package ref

import (
	"fmt"
	"math"
	"reflect"
	"sort"

	"github.com/Sereal/Sereal/Go/sereal"
)

// Mode of a decoder.
type Mode struct {
	PerlCompat bool
	NoRefs     bool // DisableReferentialIntegrity
	Loose      bool // whether references are kept as pointers does not matter
	// Registered tells what UnmarshalBinary of a registered class leaves, if the
	// class is registered.
	Registered func(class string, data []byte) (func(v interface{}) error, bool)
}

type decoded struct {
	m    Mode
	seen map[*Node]interface{} // containers: identity of the Go value
	back map[interface{}]*Node
	memo map[memoKey]bool
}

type memoKey struct {
	n  *Node
	id interface{}
}

type sliceID struct{ p uintptr }
type mapID struct{ p uintptr }
type objID struct{ p uintptr }

// SameDecoded tells whether v is what a decoder has to make of the document n
// when it decodes into an interface.
func SameDecoded(n *Node, v interface{}, m Mode) error {
	d := &decoded{m: m, seen: map[*Node]interface{}{}, back: map[interface{}]*Node{}, memo: map[memoKey]bool{}}
	return d.cmp(n, v, "top")
}

// once records the identity of the Go value for the node and tells whether the
// pair has to be looked into.
func (d *decoded) once(n *Node, id interface{}, path string) (bool, error) {
	was, ok := d.seen[n]
	if ok && was != id {
		return false, fmt.Errorf("at %s: %v is decoded into two different Go values", path, n.Brief())
	}
	if b := d.back[id]; b != nil && b != n && (b.weak != n.weak || n.weak == ident{}) {
		return false, fmt.Errorf("at %s: two different items are decoded into the same Go value", path)
	}
	d.seen[n] = id
	d.back[id] = n
	return !ok, nil
}

func (d *decoded) cmp(n *Node, v interface{}, path string) error {
	bad := func() error {
		return fmt.Errorf("at %s: %s is decoded into %s", path, n.Brief(), Show(v))
	}
	switch n.Kind {
	case Undef:
		if !d.m.PerlCompat {
			if v != nil {
				return bad()
			}
			return nil
		}
		if u, ok := v.(*sereal.PerlUndef); !ok || u == nil || *u != (sereal.PerlUndef{}) {
			return bad()
		}
	case CanonUndef:
		if !d.m.PerlCompat {
			if v != nil {
				return bad()
			}
			return nil
		}
		if u, ok := v.(*sereal.PerlUndef); !ok || u != sereal.PerlCanonicalUndef() {
			return bad()
		}
	case Bool:
		if b, ok := v.(bool); !ok || b != (n.B == 1) {
			return bad()
		}
	case Int:
		switch x := v.(type) {
		case int:
			if uint64(x) != n.B || (x < 0) != n.Neg {
				return bad()
			}
		case uint:
			if uint64(x) != n.B || n.Neg || n.B <= math.MaxInt64 {
				return bad()
			}
		default:
			return bad()
		}
	case Float:
		if f, ok := v.(float32); !ok || uint64(math.Float32bits(f)) != n.B {
			return bad()
		}
	case Double:
		if f, ok := v.(float64); !ok || math.Float64bits(f) != n.B {
			return bad()
		}
	case Str:
		if s, ok := v.(string); !ok || s != n.S {
			return bad()
		}
	case Bin:
		if s, ok := v.([]byte); !ok || s == nil || string(s) != n.S {
			return bad()
		}
	case Array:
		a, ok := v.([]interface{})
		if !ok || a == nil || len(a) != len(n.Kids) {
			return bad()
		}
		if cap(a) > 0 {
			more, err := d.once(n, sliceID{reflect.ValueOf(a).Pointer()}, path)
			if err != nil || !more {
				return err
			}
		}
		for i := range a {
			if err := d.cmp(n.Kids[i], a[i], PathN(path, "[%d]", i)); err != nil {
				return err
			}
		}
	case Hash:
		h, ok := v.(map[string]interface{})
		if !ok || h == nil || len(h) != len(n.Kids) {
			return bad()
		}
		more, err := d.once(n, mapID{reflect.ValueOf(h).Pointer()}, path)
		if err != nil || !more {
			return err
		}
		for i, k := range n.Keys {
			x, ok := h[k.S]
			if !ok {
				return fmt.Errorf("at %s: no key %q", path, k.S)
			}
			if err := d.cmp(n.Kids[i], x, Path(path, "{"+clip(k.S)+"}")); err != nil {
				return err
			}
		}
	case Ref:
		if d.m.Loose {
			for seen := map[*Node]bool{}; n.Kind == Ref || n.Kind == Object; n = n.Kids[0] {
				if seen[n] {
					return nil // leads nowhere but to itself
				}
				seen[n] = true
			}
			for i := 0; i < 100; i++ {
				rv := reflect.ValueOf(v)
				if !rv.IsValid() || rv.Kind() != reflect.Ptr || rv.IsNil() || rv.Elem().Kind() == reflect.Struct {
					break
				}
				v = rv.Elem().Interface()
			}
			return d.cmp(n, v, path)
		}
		if !d.m.PerlCompat && !n.ByREFP || n.ByREFP && d.m.NoRefs {
			return d.transparent(n, v, path)
		}
		rv := reflect.ValueOf(v)
		if !rv.IsValid() || rv.Kind() != reflect.Ptr || rv.IsNil() {
			return bad()
		}
		key := memoKey{n, rv.Pointer()}
		if d.memo[key] {
			return nil
		}
		d.memo[key] = true
		return d.cmp(n.Kids[0], rv.Elem().Interface(), Path(path, "/ref"))
	case Weak:
		if !d.m.PerlCompat {
			return d.transparent(n, v, path)
		}
		w, ok := v.(*sereal.PerlWeakRef)
		if !ok || w == nil {
			return bad()
		}
		more, err := d.once(n, objID{reflect.ValueOf(w).Pointer()}, path)
		if err != nil || !more {
			return err
		}
		return d.cmp(n.Kids[0], w.Reference, Path(path, "/weak"))
	case Object:
		if !d.m.PerlCompat {
			return d.transparent(n, v, path)
		}
		o, ok := v.(*sereal.PerlObject)
		if !ok || o == nil || o.Class != n.S {
			return bad()
		}
		more, err := d.once(n, objID{reflect.ValueOf(o).Pointer()}, path)
		if err != nil || !more {
			return err
		}
		return d.cmp(n.Kids[0], o.Reference, Path(path, "/object"))
	case Freeze:
		data := n.Kids[0].Kids[0].Kids[0].S
		if d.m.Registered != nil && !d.m.PerlCompat {
			if f, ok := d.m.Registered(n.S, []byte(data)); ok {
				if err := f(v); err != nil {
					return fmt.Errorf("at %s: %v", path, err)
				}
				return nil
			}
		}
		f, ok := v.(*sereal.PerlFreeze)
		if !ok || f == nil || f.Class != n.S || string(f.Data) != data {
			return bad()
		}
	case Regexp:
		r, ok := v.(*sereal.PerlRegexp)
		if !ok || r == nil || string(r.Pattern) != n.S || string(r.Modifiers) != n.S2 {
			return bad()
		}
	default:
		panic("what is " + n.Kind.String())
	}
	return nil
}

// transparent compares what n refers to. A chain of items that are transparent
// and lead to themselves has no value that it could be compared with.
func (d *decoded) transparent(n *Node, v interface{}, path string) error {
	for seen := map[*Node]bool{}; ; n = n.Kids[0] {
		if seen[n] {
			return nil
		}
		seen[n] = true
		if n.Kind == Ref && (!d.m.PerlCompat && !n.ByREFP || n.ByREFP && d.m.NoRefs) {
			continue
		}
		if !d.m.PerlCompat && (n.Kind == Weak || n.Kind == Object) {
			continue
		}
		return d.cmp(n, v, path)
	}
}

// Show describes a Go value, which may be cyclic.
func Show(v interface{}) string { return show(reflect.ValueOf(v), 4) }

func show(v reflect.Value, deep int) string {
	if !v.IsValid() {
		return "nil"
	}
	if deep == 0 {
		return "..."
	}
	switch v.Kind() {
	case reflect.Interface:
		return show(v.Elem(), deep)
	case reflect.Ptr:
		if v.IsNil() {
			return "nil " + v.Type().String()
		}
		return "&" + show(v.Elem(), deep-1)
	case reflect.Map:
		s := v.Type().String() + "{"
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for i, k := range keys {
			if i == 5 {
				s += "..."
				break
			}
			s += fmt.Sprintf("%v: %s, ", clip(fmt.Sprint(k)), show(v.MapIndex(k), deep-1))
		}
		return s + "}"
	case reflect.Slice, reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 && v.Kind() == reflect.Slice {
			return fmt.Sprintf("%v(%q)", v.Type(), clip(string(v.Bytes())))
		}
		s := v.Type().String() + "{"
		for i := 0; i < v.Len(); i++ {
			if i == 5 {
				s += "..."
				break
			}
			s += show(v.Index(i), deep-1) + ", "
		}
		return s + "}"
	case reflect.Struct:
		s := v.Type().String() + "{"
		for i := 0; i < v.NumField(); i++ {
			s += v.Type().Field(i).Name + ": " + show(v.Field(i), deep-1) + ", "
		}
		return s + "}"
	case reflect.String:
		return fmt.Sprintf("%v(%q)", v.Type(), clip(v.String()))
	}
	return fmt.Sprintf("%v(%v)", v.Type(), v)
}
