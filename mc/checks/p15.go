package checks

import (
	"bytes"
	"encoding"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/order"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P15", Spaces: p15, Assumptions: []string{
		"How deep a value nests is counted on the Go value by the harness; where pointers are shared, the document tells which of them comes first.",
		"Byte slices ([]byte), values with MarshalBinary and the Perl types themselves are no containers; nil and repeated pointers count as one.",
	}})
}

// nesting counts how deep a value nests, along its document. over is the
// remaining allowance, beyond which it need not be known.
func nesting(v reflect.Value, n *ref.Node, refNext bool, k config) (depth int, err error) {
	for v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() {
		return 0, nil
	}
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("document does not fit %v: %v", v.Type(), r)
		}
	}()
	unref := func() {
		if k.perl && !refNext {
			if n.Kind != ref.Ref {
				panic("no reference")
			}
			n = n.Kids[0]
		}
	}
	max := func(v reflect.Value, n *ref.Node) {
		d, e := nesting(v, n, false, k)
		if e != nil {
			panic(e)
		}
		if d > depth {
			depth = d
		}
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case sereal.PerlObject:
			return nesting(reflect.ValueOf(x.Reference), n.Kids[0], false, k)
		case sereal.PerlWeakRef:
			return nesting(reflect.ValueOf(x.Reference), n.Kids[0], false, k)
		case sereal.PerlRegexp, sereal.PerlFreeze, sereal.PerlUndef, []byte:
			return 0, nil
		case encoding.BinaryMarshaler:
			if v.Kind() != reflect.Ptr && !k.nofreeze {
				return 0, nil
			}
		}
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Array:
		unref()
		for i := 0; i < v.Len(); i++ {
			max(v.Index(i), n.Kids[i])
		}
		return depth + 1, nil
	case reflect.Map:
		unref()
		kids := map[string]*ref.Node{}
		for i, key := range n.Keys {
			kids[key.S] = n.Kids[i]
		}
		for _, key := range v.MapKeys() {
			x := v.MapIndex(key)
			for key.Kind() == reflect.Interface {
				key = key.Elem()
			}
			max(x, kids[key.String()])
		}
		return depth + 1, nil
	case reflect.Struct:
		h := n.Kids[0]
		if h.Kind == ref.Ref {
			h = h.Kids[0]
		}
		for i, key := range h.Keys {
			for j := 0; j < v.NumField(); j++ {
				if name, ok := fieldName(v.Type().Field(j)); ok && name == key.S {
					max(v.Field(j), h.Kids[i])
				}
			}
		}
		return depth + 1, nil
	case reflect.Ptr:
		if v.IsNil() {
			return 1, nil
		}
		switch v.Interface().(type) {
		case *sereal.PerlObject, *sereal.PerlWeakRef, *sereal.PerlRegexp, *sereal.PerlFreeze, *sereal.PerlUndef:
			max(v.Elem(), n)
			return depth + 1, nil
		}
		if n.Kind != ref.Ref {
			panic("no reference")
		}
		if n.ByREFP {
			return 1, nil
		}
		d, e := nesting(v.Elem(), n.Kids[0], true, k)
		return d + 1, e
	}
	return 0, nil
}

// p15value encodes a value without and with limits around its depth.
func p15value(_ *Ctx, t *T, k config, v interface{}) {
	what := func() string { return fmt.Sprintf("%v: %s", k, ref.Show(v)) }
	doc, err := k.marshal(nil, nil, v)
	if err != nil {
		t.Failf("%s: %v", what(), err)
		return
	}
	d, err := ref.Parse(doc)
	if err != nil {
		t.Failf("%s: %s: %v", what(), hexdump(doc), err)
		return
	}
	depth, err := nesting(reflect.ValueOf(v), d.Body, false, k)
	if err != nil {
		t.Failf("%s: %s: %v", what(), hexdump(doc), err)
		return
	}
	t.Count(fmt.Sprintf("depth %d", depth))
	t.Sample(func() string { return what() + fmt.Sprintf(" nests %d deep", depth) })
	limits(t, k, v, doc, depth, what, []int{1, depth - 1, depth, depth + 1, depth + 2, depth + 1000, 1 << 62, -1, -1 << 40})
}

func limits(t *T, k config, v interface{}, doc []byte, depth int, what func() string, try []int) {
	for _, n := range try {
		if n == 0 {
			continue
		}
		k := k
		k.depth = n
		got, err := k.marshal(nil, nil, v)
		switch {
		case n < 0 || depth < n:
			if err != nil {
				t.Failf("%s: nests %d deep, limit %d: %v", what(), depth, n, err)
				return
			}
			if bytes.Equal(got, doc) {
				continue
			}
			// (the order of the keys of large maps and structs is not under control)
			a, err := ref.Parse(doc)
			b, err2 := ref.Parse(got)
			if err == nil {
				err = err2
			}
			if err == nil {
				err = ref.SamePerl(a.Body, b.Body)
			}
			if err != nil {
				t.Failf("%s: %s with limit %d, else %s: %v", what(), hexdump(got), n, hexdump(doc), err)
				return
			}
		case !errors.Is(err, sereal.ErrMaxRecursionLimit) && (order.Hooked || err != nil):
			t.Failf("%s: nests %d deep, limit %d: %v %s", what(), depth, n, err, hexdump(got))
			return
		}
	}
}

// nests are ways to put a value into a container, with what it counts.
type nest struct {
	name string
	in   func(v interface{}) interface{}
	adds int
}

type nestS struct{ V interface{} }

func nests() []nest {
	// typed containers of whatever type there is
	typed := func(f func(rv reflect.Value) reflect.Value) func(interface{}) interface{} {
		return func(v interface{}) interface{} {
			rv := reflect.ValueOf(&v).Elem()
			if v != nil {
				rv = reflect.ValueOf(v)
			}
			return f(rv).Interface()
		}
	}
	return []nest{
		{"[]interface{}", func(v interface{}) interface{} { return []interface{}{7, v} }, 1},
		{"map[string]interface{}", func(v interface{}) interface{} { return map[string]interface{}{"k": v} }, 1},
		{"struct", func(v interface{}) interface{} { return nestS{v} }, 1},
		{"*interface{}", func(v interface{}) interface{} { return &v }, 1},
		{"[]T", typed(func(v reflect.Value) reflect.Value {
			s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 1, 1)
			s.Index(0).Set(v)
			return s
		}), 1},
		{"[1]T", typed(func(v reflect.Value) reflect.Value {
			s := reflect.New(reflect.ArrayOf(1, v.Type())).Elem()
			s.Index(0).Set(v)
			return s
		}), 1},
		{"map[string]T", typed(func(v reflect.Value) reflect.Value {
			m := reflect.MakeMap(reflect.MapOf(stringType, v.Type()))
			m.SetMapIndex(reflect.ValueOf("k"), v)
			return m
		}), 1},
		{"map[interface{}]T", typed(func(v reflect.Value) reflect.Value {
			m := reflect.MakeMap(reflect.MapOf(anyType, v.Type()))
			m.SetMapIndex(reflect.ValueOf("k"), v)
			return m
		}), 1},
		{"struct{T}", typed(func(v reflect.Value) reflect.Value {
			s := reflect.New(reflect.StructOf([]reflect.StructField{field("F", v.Type(), "")})).Elem()
			s.Field(0).Set(v)
			return s
		}), 1},
		{"*T", typed(func(v reflect.Value) reflect.Value {
			p := reflect.New(v.Type())
			p.Elem().Set(v)
			return p
		}), 1},
		{"PerlObject", func(v interface{}) interface{} { return sereal.PerlObject{Class: "c", Reference: v} }, 0},
		{"*PerlObject", func(v interface{}) interface{} { return &sereal.PerlObject{Class: "c", Reference: v} }, 1},
		{"PerlWeakRef", func(v interface{}) interface{} { return &sereal.PerlWeakRef{Reference: v} }, 1},
	}
}

func p15(thorough bool) []Space {
	more := 0
	if thorough {
		more = 1
	}
	var r []Space
	cs := []config{{version: 3}, {version: 2, perl: true}}
	ns := nests()
	inner := []struct {
		name string
		v    func() interface{}
		adds int
	}{
		{"7", func() interface{} { return 7 }, 0}, {"nil", func() interface{} { return nil }, 0}, {"string", func() interface{} { return "k" }, 0}, {"[]byte", func() interface{} { return []byte("b") }, 0},
		{"empty slice", func() interface{} { return []int{} }, 1}, {"nil slice", func() interface{} { return []interface{}(nil) }, 1}, {"empty map", func() interface{} { return map[string]string{} }, 1}, {"nil map", func() interface{} { return map[string]interface{}(nil) }, 1}, {"empty struct", func() interface{} { return struct{}{} }, 1},
		{"nil pointer", func() interface{} { return (*int)(nil) }, 1}, {"pointer", func() interface{} { return new(int) }, 1}, {"hook", func() interface{} { return hookOK{"x"} }, 0}, {"*hook", func() interface{} { return &hookOK{"x"} }, 1},
		{"undef", func() interface{} { return sereal.PerlUndef{} }, 0}, {"regexp", func() interface{} { return &sereal.PerlRegexp{Pattern: []byte("p")} }, 1}, {"freeze", func() interface{} { return sereal.PerlFreeze{Class: "k"} }, 0}, {"[2]byte", func() interface{} { return [2]byte{1} }, 1},
	}
	n := 4 + more
	r = append(r, Space{Name: "nestings", What: fmt.Sprintf("all nestings of up to %d out of %d kinds of containers around %d values, with all limits up to 2 beyond the depth, and huge and negative ones, %d encoders", n, len(ns), len(inner), len(cs)), Prog: func(c *Ctx, t *T) {
		var way []nest
		for i := c.Choose(n + 1); i > 0; i-- {
			way = append(way, oneOf(c, ns))
		}
		in := oneOf(c, inner)
		k := oneOf(c, cs)
		c.Ready()
		v, depth := in.v(), in.adds
		name := in.name
		for _, w := range way {
			v, depth = w.in(v), depth+w.adds
			name = w.name + " of " + name
		}
		what := func() string { return fmt.Sprintf("%v: %s", k, name) }
		doc, err := k.marshal(nil, nil, v)
		if err != nil {
			t.Failf("%s: %v", what(), err)
			return
		}
		t.Count(fmt.Sprintf("depth %d", depth))
		t.Sample(func() string { return what() + fmt.Sprintf(" nests %d deep", depth) })
		try := []int{-1, -7, 1 << 40}
		for i := 1; i < depth+3; i++ {
			try = append(try, i)
		}
		limits(t, k, v, doc, depth, what, try)
	}})

	// side by side
	r = append(r, Space{Name: "side by side", What: "all pairs of nestings of up to 3 containers, side by side in slices, maps, structs and header and body, all limits", Prog: func(c *Ctx, t *T) {
		var vs [2]interface{}
		var ds [2]int
		var make [2]func() interface{}
		few := []nest{ns[0], ns[1], ns[2], ns[3], ns[4], ns[9]}
		for i := range vs {
			i := i
			var way []nest
			for j := c.Choose(4); j > 0; j-- {
				way = append(way, oneOf(c, few[:3+3*more]))
			}
			ds[i] = len(way)
			make[i] = func() interface{} {
				v := interface{}(7)
				for _, w := range way {
					v = w.in(v)
				}
				return v
			}
		}
		place := c.Choose(5)
		k := oneOf(c, cs)
		c.Ready()
		a, b := make[0](), make[1]()
		depth := ds[0]
		if ds[1] > depth {
			depth = ds[1]
		}
		if place == 4 {
			doc, err := k.marshal(nil, a, b)
			if err != nil {
				t.Failf("%v: %v", k, err)
				return
			}
			for n := 1; n < 6; n++ {
				k := k
				k.depth = n
				got, err := k.marshal(nil, a, b)
				ok := ds[0] < n && ds[1] < n
				if ok != (err == nil) || !ok && !errors.Is(err, sereal.ErrMaxRecursionLimit) || ok && !bytes.Equal(got, doc) {
					t.Failf("%v: header nests %d and body %d deep, limit %d: %v", k, ds[0], ds[1], n, err)
				}
			}
			t.Count("header and body")
			return
		}
		v := []interface{}{[]interface{}{a, b}, map[string]interface{}{"a": a, "b": b}, struct{ A, B interface{} }{a, b}, map[string][2]interface{}{"k": {a, b}}}[place]
		depth++
		if place == 3 {
			depth++
		}
		doc, err := k.marshal(nil, nil, v)
		if err != nil {
			t.Failf("%v: %v", k, err)
			return
		}
		t.Count(fmt.Sprintf("depth %d", depth))
		limits(t, k, v, doc, depth, func() string { return fmt.Sprintf("%v: %s", k, ref.Show(v)) }, []int{1, 2, 3, 4, 5, 6, 7})
	}})

	for _, s := range valueSpaces(thorough, p15value) {
		if s.Name == "scalars" || s.Name == "configurations" || s.Name == "sizes" {
			continue
		}
		s.Name = "values: " + s.Name
		r = append(r, s)
	}
	for _, s := range typedSpaces(thorough, func(c *Ctx, t *T, k config, v reflect.Value) { p15value(c, t, k, v.Interface()) }) {
		if strings.HasSuffix(s.Name, "orders") || s.Name == "scalars" {
			continue
		}
		s.Name = "typed: " + s.Name
		r = append(r, s)
	}
	graphs := func(name string, g heapGrammar) {
		r = append(r, Space{Name: "graphs: " + name, What: fmt.Sprintf("all graphs of at most %d values with pointers (%s), with limits around their depth, %d encoders", g.tokens, name, len(cs)), Prog: func(c *Ctx, t *T) {
			v := g.value(c)
			k := oneOf(c, cs)
			c.Ready()
			p15value(c, t, k, v)
		}})
	}
	graphs("boxes", heapGrammar{tokens: 5 + more, maxKids: 3, leaves: []interface{}{"a"}, slices: true, boxes: true, ppp: true})
	graphs("pointers to containers", heapGrammar{tokens: 4 + more, maxKids: 2, leaves: []interface{}{7}, slices: true, maps: true, pslices: true, pmaps: true, structs: true})
	graphs("Perl", heapGrammar{tokens: 4 + more, maxKids: 2, leaves: []interface{}{7}, slices: true, maps: true, boxes: true, perl: true})

	// cycles without pointers
	r = append(r, Space{Name: "cycles", What: "slices, maps and structs that contain themselves, without pointers or through them, with all limits up to 40 and some up to 100000", Prog: func(c *Ctx, t *T) {
		i := c.Choose(9)
		n := oneOf(c, append(ints([2]int{1, 40}), 1000, 10000, 100000))
		k := oneOf(c, cs)
		c.Ready()
		k.depth = n
		v := cyclicValue(i)
		_, err := k.marshal(nil, nil, v)
		if !errors.Is(err, sereal.ErrMaxRecursionLimit) {
			t.Failf("%v: cycle %d: %v", k, i, err)
		}
		_, err = k.marshal(nil, v, 7)
		if !errors.Is(err, sereal.ErrMaxRecursionLimit) {
			t.Failf("%v: cycle %d in the header: %v", k, i, err)
		}
		t.Count("cycles")
	}})
	// deep values
	sizes := []int{100, 1000, 9999, 10000, 10001, 65535, 65536}
	if thorough {
		sizes = append(sizes, 200000, 1000000)
	}
	r = append(r, Space{Name: "deep", What: "deep nestings of each kind of container, without a limit and with one just enough and just too low", Prog: func(c *Ctx, t *T) {
		w := oneOf(c, []nest{ns[0], ns[1], ns[2], ns[3], ns[10], ns[11], ns[12]})
		n := oneOf(c, sizes)
		k := oneOf(c, cs)
		c.Ready()
		v := interface{}(7)
		for i := 0; i < n; i++ {
			v = w.in(v)
		}
		depth := n * w.adds
		doc, err := k.marshal(nil, nil, v)
		if err != nil {
			t.Failf("%v: %d %s: %v", k, n, w.name, err)
			return
		}
		t.Count("deep")
		limits(t, k, v, doc, depth, func() string { return fmt.Sprintf("%v: %d %s", k, n, w.name) }, []int{depth - 1, depth, depth + 1, -1})
	}})
	return r
}

// cyclicValue makes values whose encoding would not end.
func cyclicValue(i int) interface{} {
	s := []interface{}{"key", nil}
	m := map[string]interface{}{"key": 1}
	switch i {
	case 0:
		s[1] = s
		return s
	case 1:
		m["m"] = m
		return m
	case 2:
		s[1], m["s"] = m, s
		return s
	case 3:
		type sl []sl
		x := sl{nil}
		x[0] = x
		return x
	case 4:
		type mp map[string]mp
		x := mp{}
		x["x"] = x
		return x
	case 5:
		s[1] = nestS{s}
		return nestS{s}
	case 6:
		s[1] = sereal.PerlObject{Class: "c", Reference: s}
		return s
	case 7:
		s[1] = [1]interface{}{map[string]interface{}{"m": s}}
		return [1]interface{}{s}
	default:
		type ms map[string][]interface{}
		x := ms{"x": s}
		s[1] = x
		return x
	}
}
