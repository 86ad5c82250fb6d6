package checks

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P18", Spaces: p18, Assumptions: []string{
		"What becomes of a document is settled by ref.Assign. It does not settle numbers that do not fit, items that a typed variable shares with an interface or a variable of another type, and what decoding does to slices and interfaces that are not empty.",
	}})
}

// p18into decodes a document into a variable of a type, which init fills.
func p18into(t *T, doc []byte, d *ref.Doc, typ reflect.Type, fill func(reflect.Value), m ref.Mode) {
	want, got := reflect.New(typ).Elem(), reflect.New(typ)
	if fill != nil {
		fill(want)
		fill(got.Elem())
	}
	_, v := ref.Assign(d.Body, want, m)
	if m.PerlCompat && v == ref.Fits && ref.Perlish(d.Body, map[*ref.Node]bool{}) {
		v = ref.Unclear
	}
	t.Count(v.String())
	err := safe(func() error { return newDecoder(m).Unmarshal(doc, got.Interface()) })
	if isPanic(err) {
		t.Failf("%s: document %s into %v: %v", modeName(m), hexdump(doc), typ, err)
		return
	}
	if v != ref.Fits {
		return
	}
	t.Sample(func() string { return fmt.Sprintf("%s into %v", hexdump(doc), typ) })
	if err == nil {
		err = ref.Same(want, got.Elem(), m)
	}
	if err != nil {
		t.Failf("%s: document %s into %v: %v", modeName(m), hexdump(doc), typ, err)
	}
}

// ---- documents for a type

type styler struct {
	c     *Ctx
	b     []byte
	base  int
	left  int // parts that are not zero
	odd   int // departures from the plain way to write them
	strs  map[string][]int
	bins  map[string][]int
	class []int
	done  map[reflect.Type][]int // items that can be referred to
	track []int
}

func (s *styler) value(n int) int {
	if s.left <= 0 || n == 1 {
		return 0
	}
	i := s.c.Choose(n)
	if i > 0 {
		s.left--
	}
	return i
}

func (s *styler) style(n int) int {
	if s.odd <= 0 || n <= 1 {
		return 0
	}
	i := s.c.Choose(n)
	if i > 0 {
		s.odd--
	}
	return i
}

func (s *styler) put(b ...byte) { s.b = append(s.b, b...) }

func (s *styler) length(tag byte, n int) {
	if s.style(2) == 1 {
		s.put(tag, byte(n)|0x80, 0)
	} else {
		s.b = gen.Varint(append(s.b, tag), uint64(n))
	}
}

func (s *styler) str(x string, text bool) {
	copies := s.strs[x]
	if !text {
		copies = s.bins[x]
	}
	at := len(s.b)
	ways := 2
	if text {
		ways = 3
	}
	i := s.style(ways + len(copies))
	if i >= ways {
		s.b = gen.Varint(append(s.b, 0x2f), uint64(copies[i-ways]+s.base))
		return
	}
	bin := i != 2
	switch {
	case i == 2:
		s.length(0x27, len(x))
	case i == 1 || len(x) > 31:
		s.length(0x26, len(x))
	default:
		s.put(0x60 + byte(len(x)))
	}
	s.put([]byte(x)...)
	s.strs[x] = append(s.strs[x], at)
	if bin {
		s.bins[x] = append(s.bins[x], at)
	}
}

func (s *styler) key(k string) {
	if s.style(2) == 1 {
		s.put(0x3f)
	}
	s.str(k, true)
}

func (s *styler) integer(v int64, unsigned bool) {
	ways := []func(){func() { s.b = gen.Varint(append(s.b, 0x20), uint64(v)) }, func() { s.b = append(s.b, gen.ZigzagItem(v)...) }}
	long := func() { s.put(0x20, byte(v)|0x80, 0) }
	switch {
	case unsigned && v < 0: // beyond the int64s
		ways = ways[:1]
	case v < 0:
		ways = ways[1:]
	case v < 128:
		ways = append(ways, long)
	}
	if v < 16 && (!unsigned && v >= -16 || v >= 0) {
		ways = append([]func(){func() { s.put(byte(v) & 31) }}, ways...)
	}
	ways[s.style(len(ways))]()
}

// item writes an item for a variable of type t.
func (s *styler) item(t reflect.Type) {
	at := len(s.b)
	earlier := s.done[t]
	defer func() { s.done[t] = append(s.done[t], at) }()
	if s.odd > 0 {
		n := 6
		if len(s.class) > 0 {
			n = 7
		}
		i := s.c.Choose(n + 3*len(earlier))
		if i > 0 {
			s.odd--
		}
		switch {
		case i == 0:
		case i == 1:
			s.put(0x3f)
			at = len(s.b)
		case i == 2:
			s.put(0x28)
		case i == 3:
			s.put(0x30, 0x28)
		case i == 4:
			s.put(0x25 + 0x14*byte(s.c.Choose(2)))
			return
		case i == 5:
			s.put(0x2c)
			s.class = append(s.class, len(s.b))
			s.put(0x60+3, 'C', 'l', 's')
		case i == 6 && n == 7:
			s.b = gen.Varint(append(s.b, 0x2d), uint64(s.class[0]+s.base))
		default:
			o := earlier[(i-n)/3]
			tag := []byte{0x29, 0x2e, 0x2f}[(i-n)%3]
			if tag != 0x2f {
				s.track = append(s.track, o)
			}
			s.b = gen.Varint(append(s.b, tag), uint64(o+s.base))
			return
		}
	}
	switch t.Kind() {
	case reflect.Bool:
		s.put(0x3a + byte(s.value(2)))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b := t.Bits()
		xs := []int64{0, 7, -3, 1<<(b-1) - 1, -1 << (b - 1)}
		v := xs[s.value(len(xs))]
		s.integer(v, false)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		xs := []uint64{0, 7, 1<<uint(t.Bits()) - 1}
		v := xs[s.value(len(xs))]
		s.integer(int64(v), true)
	case reflect.Float32, reflect.Float64:
		v := []float64{0, 1.5, math.Inf(-1)}[s.value(3)]
		if (s.style(2) == 1) == (t.Kind() == reflect.Float32) {
			s.b = append(s.b, gen.Float64(v)...)
		} else {
			s.b = append(s.b, gen.Float32(float32(v))...)
		}
	case reflect.String:
		s.str([]string{"", "A", "a longer string than fits into 31 bytes"}[s.value(3)], true)
	case reflect.Interface:
		switch s.value(5) {
		case 0:
			s.put(0x25)
		case 1:
			s.str("A", true)
		case 2:
			s.container(0x2b, 1)
			s.put(7)
		case 3:
			s.container(0x2a, 1)
			s.key("A")
			s.put(7)
		case 4:
			s.put(0x28, 0x28, 7)
		}
	case reflect.Array, reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && t.Kind() == reflect.Slice {
			s.str([]string{"", "A", "a longer string than fits into 31 bytes"}[s.value(3)], false)
			return
		}
		n := s.value(4)
		if t.Kind() == reflect.Array {
			n = []int{t.Len(), 0, 1, t.Len() + 1}[n]
		}
		s.container(0x2b, n)
		for i := 0; i < n; i++ {
			s.item(t.Elem())
		}
	case reflect.Map:
		n := s.value(3)
		s.container(0x2a, n)
		ks := []string{"A", "bee"}
		if n == 2 && s.style(2) == 1 {
			ks[0], ks[1] = ks[1], ks[0]
		}
		for i := 0; i < n; i++ {
			s.key(ks[i])
			s.item(t.Elem())
		}
	case reflect.Ptr:
		if s.value(2) == 0 {
			s.put(0x25)
			return
		}
		s.item(t.Elem())
	case reflect.Struct:
		s.structure(t)
	default:
		s.put(0x25)
	}
}

func (s *styler) container(tag byte, n int) {
	short := byte(0x40)
	if tag == 0x2a {
		short = 0x50
	}
	switch s.style(3) {
	case 0:
		s.put(short + byte(n))
	case 1:
		s.length(tag, n)
	case 2:
		s.put(0x28)
		s.length(tag, n)
	}
}

func (s *styler) structure(t reflect.Type) {
	type entry struct {
		name string
		typ  reflect.Type
	}
	var es []entry
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if name, ok := fieldName(f); ok && f.PkgPath == "" {
			es = append(es, entry{name, f.Type})
		}
	}
	switch i := s.style(4); i {
	case 1: // the other way round
		for i, j := 0, len(es)-1; i < j; i, j = i+1, j-1 {
			es[i], es[j] = es[j], es[i]
		}
	case 2: // one is missing
		if len(es) > 0 {
			i := s.c.Choose(len(es))
			es = append(es[:i:i], es[i+1:]...)
		}
	case 3: // one more
		i := s.c.Choose(len(es) + 1)
		es = append(es[:i:i], append([]entry{{"another", nil}}, es[i:]...)...)
	}
	s.container(0x2a, len(es))
	for _, e := range es {
		if s.odd > 0 && e.name != strings.ToLower(e.name) && s.style(2) == 1 {
			e.name = strings.ToLower(e.name[:1]) + e.name[1:]
		}
		s.key(e.name)
		if e.typ == nil {
			extra := [][]byte{{7}, {0x25}, {0x61, 'A'}, {0x41, 0x51, 0x61, 'x', 0x25}, {0x28, 0xab, 1, 0x28, 7}, {0x52, 0x61, 'A', 7, 0x63, 'b', 'e', 'e', 9}, {0x2c, 0x61, 'C', 0x50}, {0x32, 0x61, 'C', 0x28, 0x2b, 1, 0x61, 'z'}, {0x31, 0x61, 'p', 0x61, 'i'}}
			s.put(oneOf(s.c, extra)...)
			continue
		}
		s.item(e.typ)
	}
}

func (s *styler) body(t reflect.Type) []byte {
	s.strs, s.bins, s.done = map[string][]int{}, map[string][]int{}, map[reflect.Type][]int{}
	s.item(t)
	for _, o := range s.track {
		s.b[o] |= 0x80
	}
	return s.b
}

func p18(thorough bool) []Space {
	more := 0
	if thorough {
		more = 1
	}
	names := func(types ...interface{}) (r []reflect.Type) {
		for _, v := range types {
			r = append(r, reflect.TypeOf(v))
		}
		return r
	}
	styled := func(name, what string, types []reflect.Type, parts, odd int) Space {
		return Space{Name: name, What: fmt.Sprintf("%s: %d types, all values of up to %d parts, written with up to %d departures from the plainest way (other tags for the same thing, PAD, REFN, WEAKEN, OBJECT, OBJECTV, UNDEF, COPY, REFP and ALIAS of earlier items, long varints, other orders, missing, extra and lower-case keys)", what, len(types), parts, odd), Prog: func(c *Ctx, t *T) {
			typ := oneOf(c, types)
			body := (&styler{c: c, base: 1, left: parts, odd: odd}).body(typ)
			m := modes[c.Choose(3)]
			c.Ready()
			doc := rawDoc(3, body)
			d, err := ref.Parse(doc)
			if err != nil || !settled(d.Feats) {
				t.Count(unsettled(d, err))
				return
			}
			if m.PerlCompat && ref.Perlish(d.Body, map[*ref.Node]bool{}) {
				t.Count("not for PerlCompat")
				return
			}
			p18into(t, doc, d, typ, nil, m)
		}}
	}
	level1 := composeAll(scalarTypes)
	level2 := composeAll(composeAll(fewTypes))
	grammar := func(name string, g gen.Grammar, types []reflect.Type) Space {
		return Space{Name: name, What: fmt.Sprintf("all documents of at most %d items, decoded into variables of %d types, fitting or not", g.Tokens, len(types)), Prog: func(c *Ctx, t *T) {
			g := g
			g.Base = 1
			body := g.Body(c)
			c.Ready()
			doc := rawDoc(3, body)
			d, err := ref.Parse(doc)
			if err != nil || !settled(d.Feats) {
				t.Count(unsettled(d, err))
				return
			}
			for _, typ := range types {
				for _, m := range modes[:3] {
					p18into(t, doc, d, typ, nil, m)
				}
			}
		}}
	}
	fit := names(
		[]int{}, []string{}, [][]byte{}, [2]int{}, [1]string{}, map[string]int{}, map[string]string{}, []interface{}{}, map[string]interface{}{}, [][]int{}, [][]string{}, []map[string]int{}, map[string][]int{}, map[string]map[string]int{},
		abc{}, []abc{}, map[string]abc{}, []*abc{}, map[string]*abc{}, &abc{}, abcTree{}, &abcTree{}, []*map[string]int{},
	)
	structs := names(abc{}, abcTree{}, []abcTree{}, map[string]*abcTree{}, plainS{}, nestedS{}, crossS{}, skipS{}, listS{})
	smaller := names(abc{}, abcTree{}, plainS{}, crossS{}, skipS{}, listS{})
	if thorough {
		smaller = structs
	}
	few := [][]byte{{0x25}, {7}, gen.Short("b")}
	r := []Space{
		styled("scalars", "scalars", scalarTypes, 1, 4),
		styled("containers", "containers of scalars", level1, 2+more, 2),
		styled("containers, odder", "containers of few scalars", composeAll(fewTypes), 1+2*more, 3),
		styled("containers of containers", "two levels of containers", level2, 2+more, 1),
		styled("containers of containers, odder", "two levels of containers", composeAll(composeAll(fewTypes[:1])), 1+more, 2),
		styled("structs", "structs", structs, 2+more, 1),
		styled("structs, odder", "structs", smaller, 1+more, 2),
		grammar("documents", gen.Grammar{Tokens: 5, MaxKids: 2, Leaves: few, Array: true, Hash: true, Inline: true, Refn: true}, fit),
		grammar("shared documents", gen.Grammar{Tokens: 5, MaxKids: 3, Leaves: few, Array: true, Hash: true, Refp: true, Alias: true, Copy: true}, fit),
		grammar("all documents", gen.Grammar{Tokens: 4, MaxKids: 2, Leaves: gen.SomeLeaves(), Array: true, Hash: true, Inline: true, Refn: true, Refp: true, Alias: true, Copy: true, Object: true, Freeze: true, Weak: true, Regexp: true, Pad: true}, fit),
		grammar("misfits", gen.Grammar{Tokens: 3, MaxKids: 2, Leaves: gen.AllLeaves(), Array: true, Hash: true, Inline: true, Refn: true, Refp: true, Alias: true, Copy: true, Object: true, Freeze: true, Weak: true, Regexp: true, Pad: true}, append(append([]reflect.Type{}, scalarTypes...), destinations...)),
	}
	named := nameTypes(reflect.TypeOf(0), 3)
	r = append(r, Space{Name: "names", What: fmt.Sprintf("all sequences of up to %d of 10 keys into %d structs of up to 3 fields with all combinations of names and tags", 2+more, len(named)), Prog: func(c *Ctx, t *T) {
		typ := oneOf(c, named)
		n := c.Choose(3 + more)
		body := []byte{0x50 + byte(n)}
		keys := []string{"aa", "Aa", "bb", "Bb", "bb cc", "Bb Cc", "-", "", "\u00e4", "aA"}
		for i := 0; i < n; i++ {
			j := c.Choose(len(keys))
			body = cat(body, gen.UTF8(keys[j]), []byte{byte(i + 1)})
			keys = append(keys[:j:j], keys[j+1:]...)
		}
		c.Ready()
		doc := rawDoc(3, body)
		d, err := ref.Parse(doc)
		if err != nil {
			t.Failf("%v", err)
			return
		}
		p18into(t, doc, d, typ, nil, modes[0])
		p18into(t, doc, d, typ, func(v reflect.Value) {
			for i := 0; i < v.NumField(); i++ {
				v.Field(i).SetInt(int64(7 + i))
			}
		}, modes[0])
	}})
	// arrays that are too short
	var short []reflect.Type
	for _, e := range names(0, "", []byte{}, []int{}, map[string]int{}, abc{}, &abc{}, [1]int{}) {
		short = append(short, e)
	}
	short = append(short, ifaceType)
	extra := [][]byte{{7}, {0x25}, gen.Short("x"), {0x42, 0x25, 7}, {0x28, 0xab, 2, 7, 0x25}, {0x51, 0x61, 'A', 0x25}, {0x28, 0xa5}, {0x39}, {0x2c, 0x61, 'C', 0x41, 0x25}, {0x32, 0x61, 'C', 0x28, 0x2b, 1, 0x61, 'z'}, {0x3a}, {0x30, 0x28, 0x2b, 0}}
	r = append(r, Space{Name: "excess", What: fmt.Sprintf("lists of up to %d elements more than the array they are decoded into has, of %d kinds, in front of something else or of something that refers to them, into arrays of %d types in 5 places", 2+more, len(extra), len(short)), Prog: func(c *Ctx, t *T) {
		e := oneOf(c, short)
		k := c.Choose(3)
		where := c.Choose(5)
		form := c.Choose(3)
		a := reflect.ArrayOf(k, e)
		n := k + 1 + c.Choose(2+more)
		var items []byte
		for i := 0; i < n; i++ {
			if i < k {
				items = append(items, 0x25)
			} else {
				items = append(items, oneOf(c, extra)...)
			}
		}
		list := [][]byte{{0x40 + byte(n)}, {0x2b, byte(n)}, {0x28, 0x2b, byte(n)}}[form]
		list = cat(list, items)
		var body []byte
		var typ reflect.Type
		switch where {
		case 0:
			typ, body = a, list
		case 1:
			typ = reflect.StructOf([]reflect.StructField{field("A", a, ""), field("B", ifaceType, "")})
			body = cat([]byte{0x52}, gen.Short("A"), list, gen.Short("B"))
		case 2:
			typ = reflect.MapOf(stringType, a)
			body = cat([]byte{0x52}, gen.Short("A"), list, gen.Short("B"))
		case 3:
			typ = reflect.SliceOf(a)
			body = cat([]byte{0x42}, list)
		case 4:
			typ = reflect.ArrayOf(1, a)
			body = cat([]byte{0x42}, list)
		}
		if where > 0 {
			last := [][]byte{{9}, {0x41, 9}}[c.Choose(2)]
			for i, b := range body {
				if where == 1 && (b == 0xab || b == 0xa5) && c.Bool() {
					last = []byte{0x29, byte(i + 1)}
					break
				}
			}
			body = cat(body, last)
		}
		m := modes[c.Choose(3)]
		c.Ready()
		doc := rawDoc(3, body)
		d, err := ref.Parse(doc)
		if err != nil || !settled(d.Feats) {
			t.Count(unsettled(d, err))
			return
		}
		p18into(t, doc, d, typ, nil, m)
	}})
	// variables that have values already
	var filledVars []func(reflect.Value)
	var filledTypes []reflect.Type
	for _, mk := range []func() interface{}{
		func() interface{} { return abc{A: 1, B: "x", C: map[string]int{"a": 5, "A": 6}} },
		func() interface{} { return &abc{A: 1, B: "x"} },
		func() interface{} { return abcTree{A: &abcTree{B: map[string]*abcTree{"a": {}}}, N: 9} },
		func() interface{} { return map[string]int{"a": 5, "z": 6} },
		func() interface{} { return map[string]abc{"a": {A: 3}, "z": {B: "y"}} },
		func() interface{} { return map[string]*abc{"a": {A: 3}, "z": {B: "y"}} },
		func() interface{} { return map[string]map[string]int{"a": {"a": 1}, "b": nil} },
		func() interface{} { return [2]int{8, 9} },
		func() interface{} { return [2]abc{{A: 8}, {B: "nine"}} },
		func() interface{} { return []int{8, 9} },
		func() interface{} { return []abc{{A: 8, C: map[string]int{"z": 1}}} },
		func() interface{} { return []*abc{{A: 8}, nil} },
		func() interface{} { return map[string][]int{"a": {5}} },
		func() interface{} { return [][]int{make([]int, 0, 2), {7}} },
		func() interface{} { return [2][]int{{1, 2}, {3}} },
		func() interface{} { return []map[string]int{{"a": 5, "z": 6}, nil} },
		func() interface{} { return []byte("xyz") },
	} {
		mk := mk
		filledTypes = append(filledTypes, reflect.TypeOf(mk()))
		filledVars = append(filledVars, func(v reflect.Value) { v.Set(reflect.ValueOf(mk())) })
	}
	g := gen.Grammar{Tokens: 5 + more, MaxKids: 2, Leaves: few, Array: true, Hash: true, Inline: true, Refn: true, Refp: true, Base: 1}
	r = append(r, Space{Name: "filled", What: fmt.Sprintf("all documents of at most %d items, decoded into %d variables that have values already", g.Tokens, len(filledVars)), Prog: func(c *Ctx, t *T) {
		g := g
		body := g.Body(c)
		c.Ready()
		doc := rawDoc(3, body)
		d, err := ref.Parse(doc)
		if err != nil || !settled(d.Feats) {
			t.Count(unsettled(d, err))
			return
		}
		for i, typ := range filledTypes {
			for _, m := range modes[:3] {
				p18into(t, doc, d, typ, filledVars[i], m)
			}
		}
	}})
	return append(r, p18sizes(thorough)...)
}

type abc struct {
	A int            `sereal:"a"`
	B string         `sereal:"b"`
	C map[string]int `sereal:"c"`
	D []int
}

type abcTree struct {
	A *abcTree
	B map[string]*abcTree
	C []abcTree
	N int `sereal:"d"`
}
