package ref

import (
	"encoding"
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"reflect"
	"sort"
	"strconv"

	"github.com/Sereal/Sereal/Go/sereal"
)

// GraphOpts are the encoder options that decide what its documents mean.
type GraphOpts struct {
	PerlCompat    bool
	DisableFREEZE bool
}

// ident tells pointers apart. Pointers that are equal have to lead to the same
// item of the document. Items may be merged where that makes no difference to
// anybody: variables that hold the same map, slice or pointer.
type ident struct {
	addr uintptr
	typ  reflect.Type
	len  int
}

type grapher struct {
	o      GraphOpts
	strong map[ident]*Node
}

// GraphOf returns the graph of items that v stands for: what the document that
// an encoder makes of it has to look like.
func GraphOf(v interface{}, o GraphOpts) *Node {
	g := &grapher{o: o, strong: map[ident]*Node{}}
	return g.item(reflect.ValueOf(v), false)
}

// IntNode returns the node of an integer.
func IntNode(v int64) *Node { n := &Node{}; n.set(v); return n }

func (g *grapher) item(rv reflect.Value, underPtr bool) *Node {
	n := &Node{}
	g.fill(n, rv, underPtr)
	return n
}

func refTo(n *Node) *Node { return &Node{Kind: Ref, Kids: []*Node{n}} }

// JSONNumber returns what a json.Number is encoded as.
func JSONNumber(s json.Number) interface{} {
	if i, err := strconv.ParseInt(string(s), 10, 64); err == nil {
		return i
	}
	if _, ok := new(big.Int).SetString(string(s), 10); ok {
		return string(s) // an integer that a float cannot represent
	}
	if f, err := strconv.ParseFloat(string(s), 64); err == nil {
		return f
	}
	return string(s)
}

func (g *grapher) fill(n *Node, rv reflect.Value, underPtr bool) {
	for rv.Kind() == reflect.Interface {
		rv = rv.Elem()
	}
	if !rv.IsValid() {
		n.Kind = Undef
		return
	}
	if rv.CanInterface() {
		switch v := rv.Interface().(type) {
		case json.Number:
			g.fill(n, reflect.ValueOf(JSONNumber(v)), false)
			return
		case []byte:
			n.Kind, n.S = Bin, string(v)
			return
		case sereal.PerlUndef:
			n.Kind = Undef
			if v == *sereal.PerlCanonicalUndef() {
				n.Kind = CanonUndef
			}
			return
		case sereal.PerlObject:
			n.Kind, n.S = Object, v.Class
			n.Kids = []*Node{g.item(reflect.ValueOf(v.Reference), false)}
			return
		case sereal.PerlRegexp:
			n.Kind, n.S, n.S2 = Regexp, string(v.Pattern), string(v.Modifiers)
			return
		case sereal.PerlFreeze:
			g.freeze(n, v.Class, v.Data)
			return
		case sereal.PerlWeakRef:
			n.Kind = Weak
			n.Kids = []*Node{g.item(reflect.ValueOf(v.Reference), false)}
			return
		}
		if m, ok := rv.Interface().(encoding.BinaryMarshaler); ok && !g.o.DisableFREEZE && rv.Kind() != reflect.Ptr {
			b, err := m.MarshalBinary()
			if err != nil {
				panic(err)
			}
			g.freeze(n, rv.Type().PkgPath()+"."+rv.Type().Name(), b)
			return
		}
	}
	switch rv.Kind() {
	case reflect.Bool:
		n.Kind = Bool
		if rv.Bool() {
			n.B = 1
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n.set(rv.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		n.Kind, n.B = Int, rv.Uint()
	case reflect.Float32:
		n.Kind, n.B = Float, uint64(Bits32(rv))
	case reflect.Float64:
		n.Kind, n.B = Double, math.Float64bits(rv.Float())
	case reflect.String:
		n.Kind, n.S = Str, rv.String()
	case reflect.Slice, reflect.Array:
		a := n
		if g.o.PerlCompat && !underPtr {
			a = &Node{}
			n.Kind, n.Kids = Ref, []*Node{a}
		}
		a.Kind = Array
		for i := 0; i < rv.Len(); i++ {
			a.Kids = append(a.Kids, g.item(rv.Index(i), false))
		}
	case reflect.Map:
		h := n
		if g.o.PerlCompat && !underPtr {
			h = &Node{}
			n.Kind, n.Kids = Ref, []*Node{h}
		}
		h.Kind = Hash
		for _, k := range rv.MapKeys() {
			h.Kids = append(h.Kids, g.item(rv.MapIndex(k), false))
			for k.Kind() == reflect.Interface {
				k = k.Elem()
			}
			h.Keys = append(h.Keys, Key{k.String(), true})
		}
	case reflect.Struct:
		n.Kind, n.S = Object, rv.Type().Name()
		h := &Node{Kind: Hash}
		n.Kids = []*Node{h}
		if g.o.PerlCompat {
			n.Kids[0] = refTo(h)
		}
		for i := 0; i < rv.NumField(); i++ {
			f := rv.Type().Field(i)
			name := f.Tag.Get("sereal")
			if name == "" {
				if f.PkgPath != "" {
					continue
				}
				name = f.Name
			} else if name == "-" {
				continue
			}
			h.Keys = append(h.Keys, Key{name, true})
			h.Kids = append(h.Kids, g.item(rv.Field(i), false))
		}
	case reflect.Ptr:
		if rv.IsNil() {
			n.Kind, n.Kids = Ref, []*Node{{Kind: Undef}}
			return
		}
		if rv.Elem().Kind() == reflect.Struct && rv.Elem().CanInterface() {
			switch rv.Elem().Interface().(type) {
			case sereal.PerlRegexp, sereal.PerlUndef, sereal.PerlObject, sereal.PerlFreeze, sereal.PerlWeakRef:
				g.fill(n, rv.Elem(), false)
				return
			}
		}
		n.Kind = Ref
		id := ident{addr: rv.Pointer(), typ: rv.Type()}
		t := g.strong[id]
		if t == nil {
			t = &Node{weak: weakIdent(rv)}
			g.strong[id] = t
			n.Kids = []*Node{t}
			g.fill(t, rv.Elem(), true)
		}
		n.Kids = []*Node{t}
	default:
		panic(fmt.Sprintf("no graph of %v", rv.Type()))
	}
}

func weakIdent(rv reflect.Value) ident {
	e := rv.Elem()
	for e.Kind() == reflect.Interface {
		e = e.Elem()
	}
	switch e.Kind() {
	case reflect.Map, reflect.Ptr:
		if !e.IsNil() {
			return ident{addr: e.Pointer(), typ: e.Type()}
		}
	case reflect.Slice:
		if !e.IsNil() {
			return ident{addr: e.Pointer(), typ: e.Type(), len: e.Len()}
		}
	case reflect.String:
		return ident{typ: e.Type()}
	}
	return ident{addr: rv.Pointer(), typ: rv.Type()}
}

func (g *grapher) freeze(n *Node, class string, data []byte) {
	n.Kind, n.S = Freeze, class
	n.Kids = []*Node{refTo(&Node{Kind: Array, Kids: []*Node{{Kind: Bin, S: string(data)}}})}
}

type bisim struct {
	seen map[[2]*Node]bool
	fwd  map[*Node]*Node
	back map[*Node]*Node
	bins map[string]bool
	f    func(format string, a ...interface{}) error
}

// SameGraph tells whether the document is what want describes: the same kinds
// of items, and the references lead to the same items exactly where the
// pointers do.
func SameGraph(want, got *Node) error {
	b := &bisim{seen: map[[2]*Node]bool{}, fwd: map[*Node]*Node{}, back: map[*Node]*Node{}, bins: map[string]bool{}}
	b.classes(got, map[*Node]bool{})
	return b.cmp(want, got, "top")
}

// class names are binary strings, which later keys may be copies of
func (b *bisim) classes(n *Node, seen map[*Node]bool) {
	if seen[n] {
		return
	}
	seen[n] = true
	if n.Kind == Object || n.Kind == Freeze {
		b.bins[n.S] = true
	}
	for _, k := range n.Kids {
		b.classes(k, seen)
	}
}

func (b *bisim) cmp(e, a *Node, path string) error {
	if b.seen[[2]*Node{e, a}] {
		return nil
	}
	b.seen[[2]*Node{e, a}] = true
	diff := func(f string, x ...interface{}) error {
		return fmt.Errorf("at %s: "+f, append([]interface{}{path}, x...)...)
	}
	if e.Kind != a.Kind {
		return diff("%v (%s) instead of %v (%s)", a.Kind, a.Brief(), e.Kind, e.Brief())
	}
	if e.B != a.B || e.Neg != a.Neg || e.S != a.S || e.S2 != a.S2 {
		return diff("%s instead of %s", a.Brief(), e.Brief())
	}
	if len(e.Kids) != len(a.Kids) {
		return diff("%d items instead of %d", len(a.Kids), len(e.Kids))
	}
	switch e.Kind {
	case Hash:
		ei, ai := e.order(), a.order()
		for i := range ei {
			ek, ak := e.Keys[ei[i]], a.Keys[ai[i]]
			if ek.S != ak.S {
				return diff("key %q instead of %q", ak.S, ek.S)
			}
			if !ak.UTF8 && !b.bins[ak.S] {
				return diff("key %q is not text", ak.S)
			}
			if err := b.cmp(e.Kids[ei[i]], a.Kids[ai[i]], Path(path, "{"+clip(ek.S)+"}")); err != nil {
				return err
			}
		}
		return nil
	case Ref:
		et, at := e.Kids[0], a.Kids[0]
		if et.weak != (ident{}) {
			if was := b.fwd[et]; was != nil && was != at {
				return diff("two references to one thing lead to different items at %d and %d", was.Off, at.Off)
			}
			b.fwd[et] = at
			if was := b.back[at]; was != nil && was != et && was.weak != et.weak {
				return diff("references to different things lead to the same item at %d", at.Off)
			}
			b.back[at] = et
		}
	}
	for i := range e.Kids {
		if err := b.cmp(e.Kids[i], a.Kids[i], PathN(path, "/%d", i)); err != nil {
			return err
		}
	}
	return nil
}

func clip(s string) string {
	if len(s) > 20 {
		return fmt.Sprintf("%.20s...(%d)", s, len(s))
	}
	return s
}

func (n *Node) order() []int {
	idx := make([]int, len(n.Keys))
	for i := range idx {
		idx[i] = i
	}
	sort.Slice(idx, func(i, j int) bool { return n.Keys[idx[i]].S < n.Keys[idx[j]].S })
	return idx
}

// Brief describes a node without what is below it.
func (n *Node) Brief() string {
	switch n.Kind {
	case Int:
		if n.Neg {
			return fmt.Sprint(int64(n.B))
		}
		return fmt.Sprint(n.B)
	case Bool, Float, Double:
		return fmt.Sprintf("%v %#x", n.Kind, n.B)
	case Bin, Str, Object, Freeze:
		return fmt.Sprintf("%v %q", n.Kind, clip(n.S))
	case Regexp:
		return fmt.Sprintf("/%s/%s", clip(n.S), clip(n.S2))
	}
	return fmt.Sprintf("%v[%d]", n.Kind, len(n.Kids))
}

// Bits32 returns the bits of a float32. Those of other types go through a
// float64, which makes signalling NaNs quiet.
func Bits32(rv reflect.Value) uint32 {
	if rv.CanInterface() {
		if f, ok := rv.Interface().(float32); ok {
			return math.Float32bits(f)
		}
	}
	return math.Float32bits(float32(rv.Float()))
}
