package checks

import (
	"fmt"
	"reflect"

	"verif/mc/gen"
	"verif/mc/ref"
)

type (
	nestedList []nestedList
	nestedMap  map[string]nestedMap
)

// sizeTypes are the types that documents of the shape could be for.
func sizeTypes(name string) []reflect.Type {
	var vs []interface{}
	switch name {
	case "short binary", "binary", "utf8":
		vs = []interface{}{"", []byte{}, [5]byte{}}
	case "binary key", "utf8 key", "short key", "class", "hash", "hashref":
		vs = []interface{}{map[string]int{}, map[string]interface{}{}, map[string]uint8{}, &map[string]int{}, abc{}, keysS{}, &keysS{}}
	case "frozen class", "frozen data":
		vs = []interface{}{[]byte{}}
	case "array", "arrayref":
		vs = []interface{}{[]int{}, []interface{}{}, []uint8{}, [3]int{}, [200]int16{}}
	case "array of arrays":
		vs = []interface{}{[][]interface{}{}, [][][]int{}, [2][1][]int{}}
	case "nested arrays", "nested arrayrefs":
		vs = []interface{}{[]nestedList{}, []interface{}{}, [][]interface{}{}}
	case "nested hashes", "nested hashrefs":
		vs = []interface{}{nestedMap{}, map[string]interface{}{}, map[string]map[string]interface{}{}}
	case "nested refs":
		vs = []interface{}{0, uint8(0)}
	case "nested refs to array", "nested objects":
		vs = []interface{}{[]int{}, [1]int{}, []interface{}{}}
	case "chained references", "pads", "pads with F bits":
		vs = []interface{}{[]interface{}{}, [2]interface{}{}}
	}
	var r []reflect.Type
	for _, v := range vs {
		r = append(r, reflect.TypeOf(v))
	}
	return r
}

// keysS has some of the keys of the hashes.
type keysS struct {
	K0  int `sereal:"k0"`
	K7  uint16
	K14 *int    `sereal:"k13"`
	K15 float64 `sereal:"nothing"`
	L   int     `sereal:"k14"`
	M   int8    `sereal:"k139"`
}

func p18sizes(thorough bool) []Space {
	type one struct {
		shape
		typ reflect.Type
	}
	var sized []one
	for _, s := range sizeShapes() {
		for _, typ := range sizeTypes(s.name) {
			sized = append(sized, one{s, typ})
		}
	}
	wraps := []wrapping{{1, gen.Raw, nil}, {3, gen.Raw, nil}}
	all := []wrapping{{1, gen.Raw, nil}, {2, gen.Raw, nil}, {2, gen.SnappyIncr, []byte{0}}, {3, gen.Raw, []byte{1, 7}}, {4, gen.Zlib, append([]byte{2}, filled(200)...)}}
	into := func(c *Ctx, t *T, w wrapping, body []byte, typ reflect.Type, ms []ref.Mode) {
		doc := w.doc(body)
		d, err := ref.Parse(doc)
		if err != nil || !settled(d.Feats) {
			t.Count(unsettled(d, err))
			return
		}
		for _, m := range ms {
			if m.PerlCompat && ref.Perlish(d.Body, map[*ref.Node]bool{}) {
				continue
			}
			p18into(t, doc, d, typ, nil, m)
		}
	}
	r := []Space{{Name: "sizes", What: "strings, keys, class names, containers, chains and pads of every size up to a bound and around the powers of 128, decoded into variables of several types each", Prog: func(c *Ctx, t *T) {
		s := oneOf(c, sized)
		n := oneOf(c, s.sizes)
		w := oneOf(c, wraps)
		c.Ready()
		into(c, t, w, s.make(w.base(), n), s.typ, modes[:2])
	}}}

	var large []one
	counts, depths := []int{140000, 270000, 600000}, []int{2000, 10000, 50000}
	for _, s := range largeShapes(counts, depths) {
		types := sizeTypes(s.name)
		switch s.name {
		case "array of strings", "array of copies":
			types = []reflect.Type{reflect.TypeOf([]string{}), reflect.TypeOf([][]byte{})}
		case "array of references":
			types = []reflect.Type{reflect.TypeOf([][]int{}), reflect.TypeOf([]interface{}{})}
		case "array of hashes":
			types = []reflect.Type{reflect.TypeOf([]map[string]int{}), reflect.TypeOf([]keysS{}), reflect.TypeOf([]*keysS{})}
		case "array of objects":
			types = []reflect.Type{reflect.TypeOf([][]int{}), reflect.TypeOf([][1]int8{})}
		}
		for _, typ := range types {
			large = append(large, one{s, typ})
		}
	}
	r = append(r, Space{Name: "large", What: "hundreds of thousands of items, and nestings of thousands of levels, decoded into variables of several types each", Prog: func(c *Ctx, t *T) {
		s := oneOf(c, large)
		n := oneOf(c, s.sizes)
		c.Ready()
		into(c, t, wraps[1], s.make(1, n), s.typ, modes[:2])
	}})

	type far struct {
		name   string
		value  interface{}
		first  []byte
		at     int
		track  bool
		second func(off uint64) []byte
	}
	tag := func(first byte, more ...byte) func(uint64) []byte {
		return func(off uint64) []byte { return append(gen.Varint([]byte{first}, off), more...) }
	}
	var fars []far
	for _, x := range []struct {
		v interface{}
		b []byte
	}{
		{"", gen.Short("abc")}, {"", gen.UTF8("abc")}, {[]byte{}, gen.Short("abc")}, {0, []byte{0x20, 0x81, 1}}, {int8(0), []byte{0x1f}}, {1.5, gen.Float64(2.5)}, {float32(1), gen.Float32(2.5)}, {true, []byte{0x3b}},
		{[]int{}, []byte{0x42, 7, 8}}, {[]int{}, []byte{0x28, 0x2b, 1, 7}}, {[2]int{}, []byte{0x2b, 2, 7, 8}}, {[]string{}, cat([]byte{0x42}, gen.Short("x"), gen.UTF8("y"))},
		{map[string]int{}, cat([]byte{0x51}, keyN(1), []byte{9})}, {&map[string]int{}, cat([]byte{0x51}, keyN(1), []byte{9})}, {abc{}, cat([]byte{0x51}, gen.Short("a"), []byte{9})}, {&abc{}, cat([]byte{0x28, 0x2a, 1}, gen.Short("b"), gen.Short("z"))},
		{[]byte{}, cat([]byte{0x32}, keyN(1), []byte{0x28, 0x2b, 1}, keyN(2))},
	} {
		for _, second := range []byte{0x29, 0x2e, 0x2f} {
			fars = append(fars, far{fmt.Sprintf("%#x to % x", second, x.b), x.v, x.b, 0, second != 0x2f, tag(second)})
		}
	}
	hash := cat([]byte{0x51}, keyN(1), []byte{7})
	class := cat([]byte{0x2c}, keyN(1), []byte{0x51}, keyN(2), []byte{7})
	frozen := cat([]byte{0x32}, keyN(1), []byte{0x28, 0x2b, 1}, keyN(2))
	fars = append(fars,
		far{"copied key", map[string]int{}, hash, 1, false, func(o uint64) []byte { return cat([]byte{0x51}, gen.Varint([]byte{0x2f}, o), []byte{9}) }},
		far{"copied key of a struct", keysS{}, cat([]byte{0x51}, keyN(0), []byte{7}), 1, false, func(o uint64) []byte { return cat([]byte{0x51}, gen.Varint([]byte{0x2f}, o), []byte{9}) }},
		far{"class again", map[string]int{}, class, 1, false, func(o uint64) []byte {
			return cat(gen.Varint([]byte{0x2d}, o), []byte{0x51}, gen.Varint([]byte{0x2f}, o), []byte{9})
		}},
		far{"class copied", []interface{}{}, cat([]byte{0x2c}, keyN(1), []byte{0x41, 7}), 1, false, func(o uint64) []byte { return cat([]byte{0x2c}, gen.Varint([]byte{0x2f}, o), []byte{0x41, 9}) }},
		far{"frozen again", []byte{}, frozen, 1, false, tag(0x33, 0x28, 0x2b, 1, 0x61, 'x')},
	)
	front := []int{0, 1, 50, 100, 110, 111, 112, 113, 114, 115, 116, 117, 118, 119, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 16300, 16370, 16371, 16372, 16373, 16374, 16375, 16376, 16377, 16378, 16379, 16380, 16381, 16382, 16383, 16384}
	between := []int{0, 3, 120}
	small := uint64(2000)
	if thorough {
		front, between, small = append(front, 2097140), append(between, 128, 16384), 70000
	}
	r = append(r, Space{Name: "offsets", What: fmt.Sprintf("structs of two fields of %d kinds, of which the second refers to, aliases or copies (part of) the first, with filler in front and between that moves offsets across the lengths of varints, in all versions, the filler decoded or skipped", len(fars)), Prog: func(c *Ctx, t *T) {
		f := oneOf(c, fars)
		x, y := oneOf(c, front), oneOf(c, between)
		w := oneOf(c, all)
		skip := c.Choose(2)
		c.Ready()
		b := cat([]byte{0x2a, 4}, gen.Short("P"), gen.Binary(filled(x)), gen.Short("A"))
		at := len(b) + f.at
		b = cat(b, f.first, gen.Short("Q"), gen.Binary(filled(y)), gen.Short("B"), f.second(uint64(at+w.base())))
		if f.track {
			b[at] |= 0x80
		}
		typ := reflect.TypeOf(f.value)
		fields := []reflect.StructField{{Name: "P", Type: reflect.TypeOf("")}, {Name: "A", Type: typ}, {Name: "Q", Type: reflect.TypeOf([]byte{})}, {Name: "B", Type: typ}}
		if skip == 1 {
			fields = []reflect.StructField{fields[3], fields[1]}
		}
		into(c, t, w, b, reflect.StructOf(fields), modes[:3])
	}})

	var numbers [][]byte
	types := append([]reflect.Type{}, scalarTypes...)
	r = append(r, Space{Name: "numbers", What: "integers and floats: all small ones, all bit lengths, special values; into variables of all scalar types, alone, in slices and in maps", Prog: func(c *Ctx, t *T) {
		if numbers == nil {
			numbers = intItems(small)
		}
		i := c.Choose(len(numbers))
		typ := oneOf(c, types)
		c.Ready()
		x := numbers[i]
		into(c, t, wraps[1], x, typ, modes[:1])
		into(c, t, wraps[1], cat([]byte{0x42}, x, x), reflect.SliceOf(typ), modes[:1])
		into(c, t, wraps[1], cat([]byte{0x51}, keyN(1), x), reflect.MapOf(reflect.TypeOf(""), typ), modes[:1])
	}})
	return r
}
