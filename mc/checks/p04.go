package checks

import (
	"bytes"
	"fmt"
	"math"
	"strings"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P04", Spaces: p04, Assumptions: []string{
		"The reference parser (mc/ref) states the format as sereal_spec.pod does; it shares no code with the repository.",
		"Where the specification leaves a decoder a choice (duplicate keys, COPY of an item with an F bit, ALIAS to an enclosing item) nothing is compared.",
	}})
}

// p04doc decodes a body in all modes and compares.
func p04doc(c *Ctx, t *T, version int, body []byte) {
	doc := rawDoc(version, body)
	d, err := ref.Parse(doc)
	if err != nil || !settled(d.Feats) {
		t.Count(unsettled(d, err))
		return
	}
	t.Count("compared")
	t.Sample(func() string { return hexdump(doc) })
	for _, m := range modes {
		conform(t, doc, d.Body, m, newDecoder(m))
	}
}

// unsettled says why a document is not compared.
func unsettled(d *ref.Doc, err error) string {
	if err != nil {
		return "not valid: " + strings.TrimRight(strings.Split(err.Error(), " at ")[0], "-0123456789")
	}
	switch f := d.Feats; {
	case f.CopyOfTracked:
		return "not settled: COPY of tracked or REFP"
	case f.DupKeys:
		return "not settled: duplicate keys"
	case f.OpenAlias:
		return "not settled: ALIAS to enclosing item"
	case f.RefToHole:
		return "not settled: REFP to enclosing reference"
	case f.LongDouble:
		return "not settled: LONG_DOUBLE"
	}
	return "not settled"
}

func p04(thorough bool) []Space {
	more := 0
	if thorough {
		more = 1
	}
	grammar := func(name string, g gen.Grammar) Space {
		return Space{
			Name: name,
			What: fmt.Sprintf("all documents of at most %d items of the grammar %s, decoded in 4 modes", g.Tokens, name),
			Prog: func(c *Ctx, t *T) {
				g := g
				g.Base = 1
				body := g.Body(c)
				c.Ready()
				p04doc(c, t, 3, body)
			},
		}
	}
	few := [][]byte{{0x25}, {7}, gen.Short("b")}
	return append([]Space{
		grammar("leaves", gen.Grammar{Tokens: 3, MaxKids: 2, Leaves: gen.AllLeaves(), Array: true, Hash: true, Inline: true, Refn: true, Weak: true, Object: true, Freeze: true, Regexp: true, Pad: true, Refp: true, Alias: true, Copy: true}),
		grammar("pads", gen.Grammar{Tokens: 3 + more, MaxKids: 2, Leaves: [][]byte{{7}, gen.Short("b")}, Array: true, Hash: true, Refn: true, Object: true, Refp: true, Copy: true, Regexp: true, Pad: true, PadF: true}),
		grammar("containers", gen.Grammar{Tokens: 6 + more, MaxKids: 4, Leaves: few, Array: true, Hash: true, Inline: true}),
		grammar("references", gen.Grammar{Tokens: 6 + more, MaxKids: 3, Leaves: [][]byte{{0x25}, gen.Short("b")}, Array: true, Refn: true, Refp: true, Inline: true}),
		grammar("hash references", gen.Grammar{Tokens: 5 + more, MaxKids: 3, Leaves: [][]byte{{7}}, Array: true, Hash: true, Refn: true, Refp: true, Inline: true, Weak: true}),
		grammar("aliases", gen.Grammar{Tokens: 6 + more, MaxKids: 3, Leaves: few, Array: true, Alias: true, Refn: true, Refp: true}),
		grammar("copies", gen.Grammar{Tokens: 5 + more, MaxKids: 3, Leaves: [][]byte{{7}, gen.Short("b"), gen.UTF8("u")}, Array: true, Hash: true, Inline: true, Copy: true, Refn: true, Object: true}),
		grammar("class copies", gen.Grammar{Tokens: 7 + more, MaxKids: 4, Leaves: [][]byte{gen.Short("b")}, Array: true, Copy: true, Object: true}),
		grammar("objects", gen.Grammar{Tokens: 5 + more, MaxKids: 2, Leaves: [][]byte{{7}, gen.Short("b")}, Array: true, Hash: true, Refn: true, Refp: true, Copy: true, Object: true, Freeze: true, Weak: true}),
		grammar("everything", gen.Grammar{Tokens: 4 + more, MaxKids: 2, Leaves: gen.SomeLeaves(), Array: true, Hash: true, Inline: true, Refn: true, Refp: true, Alias: true, Copy: true, Object: true, Freeze: true, Weak: true, Regexp: true, Pad: true}),
	}, p04shapes(thorough)...)
}

// item writes one of the shapes whose sizes matter; base is the offset of its
// first byte.
type shape struct {
	name  string
	sizes []int
	make  func(base, n int) []byte
}

func ints(ranges ...[2]int) (r []int) {
	for _, x := range ranges {
		for i := x[0]; i <= x[1]; i++ {
			r = append(r, i)
		}
	}
	return r
}

func filled(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%23)
	}
	return string(b)
}

func cat(bs ...[]byte) (r []byte) {
	for _, b := range bs {
		r = append(r, b...)
	}
	return r
}

// keyN is a key that is different for every n.
func keyN(n int) []byte { return gen.Short(fmt.Sprintf("k%d", n)) }

var lengths = ints([2]int{0, 300}, [2]int{16380, 16388}, [2]int{65533, 65538}, [2]int{2097149, 2097154})
var counts = ints([2]int{0, 140}, [2]int{254, 258}, [2]int{16382, 16386}, [2]int{65535, 65537})
var depths = ints([2]int{1, 140}, [2]int{1000, 1001})

func nested(n int, open []byte, leaf []byte) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, open...)
	}
	return append(b, leaf...)
}

func sizeShapes() []shape {
	str := func(s string) []byte { return gen.Binary(s) }
	return []shape{
		{"short binary", ints([2]int{0, 31}), func(_, n int) []byte { return gen.Short(filled(n)) }},
		{"binary", lengths, func(_, n int) []byte { return gen.Binary(filled(n)) }},
		{"utf8", lengths, func(_, n int) []byte { return gen.UTF8(filled(n)) }},
		{"binary key", lengths, func(_, n int) []byte { return cat([]byte{0x2a, 1}, gen.Binary(filled(n)), []byte{7}) }},
		{"utf8 key", lengths, func(_, n int) []byte { return cat([]byte{0x51}, gen.UTF8(filled(n)), []byte{7}) }},
		{"short key", ints([2]int{0, 31}), func(_, n int) []byte { return cat([]byte{0x51}, gen.Short(filled(n)), []byte{7}) }},
		{"class", lengths, func(_, n int) []byte { return cat([]byte{0x2c}, str(filled(n)), []byte{0x51}, keyN(1), []byte{7}) }},
		{"frozen class", lengths, func(_, n int) []byte { return cat([]byte{0x32}, str(filled(n)), []byte{0x28, 0x2b, 1}, gen.Short("x")) }},
		{"frozen data", lengths, func(_, n int) []byte { return cat([]byte{0x32}, gen.UTF8("C"), []byte{0x28, 0x2b, 1}, str(filled(n))) }},
		{"pattern", lengths, func(_, n int) []byte { return cat([]byte{0x31}, str(filled(n)), gen.Short("msix")) }},
		{"modifiers", lengths, func(_, n int) []byte { return cat([]byte{0x31}, gen.Short("p"), gen.UTF8(filled(n))) }},
		{"array", counts, func(_, n int) []byte { return cat(gen.Varint([]byte{0x2b}, uint64(n)), bytes.Repeat([]byte{7}, n)) }},
		{"array of arrays", counts, func(_, n int) []byte {
			return cat(gen.Varint([]byte{0x2b}, uint64(n)), bytes.Repeat([]byte{0x2b, 1, 0x41, 5}, n))
		}},
		{"arrayref", ints([2]int{0, 15}), func(_, n int) []byte { return cat([]byte{0x40 + byte(n)}, bytes.Repeat([]byte{7}, n)) }},
		{"hash", counts, func(_, n int) []byte {
			b := gen.Varint([]byte{0x2a}, uint64(n))
			for i := 0; i < n; i++ {
				b = append(append(b, keyN(i)...), byte(i&15))
			}
			return b
		}},
		{"hashref", ints([2]int{0, 15}), func(_, n int) []byte {
			b := []byte{0x50 + byte(n)}
			for i := 0; i < n; i++ {
				b = append(append(b, keyN(i)...), byte(i&15))
			}
			return b
		}},
		{"pads", ints([2]int{1, 300}), func(_, n int) []byte {
			p := bytes.Repeat([]byte{0x3f}, n)
			return cat(p, []byte{0x2b, 2}, p, []byte{0x51}, p, keyN(1), p, []byte{0x31}, p, keyN(2), p, keyN(3), p, []byte{0x2c}, p, keyN(4), p, []byte{0x42, 1, 2})
		}},
		{"pads with F bits", ints([2]int{1, 300}), func(_, n int) []byte {
			p := bytes.Repeat([]byte{0xbf}, n)
			return cat(p, []byte{0x2b, 2}, p, []byte{0x51}, p, keyN(1), p, []byte{0x31}, p, keyN(2), p, keyN(3), p, []byte{0x2c}, p, keyN(4), p, []byte{0x42, 1, 2})
		}},
		{"nested arrays", depths, func(_, n int) []byte { return nested(n, []byte{0x2b, 1}, []byte{7}) }},
		{"nested arrayrefs", depths, func(_, n int) []byte { return nested(n, []byte{0x41}, []byte{7}) }},
		{"nested hashes", depths, func(_, n int) []byte { return nested(n, cat([]byte{0x2a, 1}, keyN(1)), []byte{7}) }},
		{"nested hashrefs", depths, func(_, n int) []byte { return nested(n, cat([]byte{0x51}, keyN(1)), []byte{7}) }},
		{"nested refs", depths, func(_, n int) []byte { return nested(n, []byte{0x28}, []byte{7}) }},
		{"nested refs to array", depths, func(_, n int) []byte { return nested(n, []byte{0x28}, []byte{0x2b, 1, 7}) }},
		{"nested objects", depths, func(_, n int) []byte { return nested(n, cat([]byte{0x2c}, keyN(1), []byte{0x28}), []byte{0x2b, 1, 7}) }},
		{"chained references", ints([2]int{1, 140}), func(base, n int) []byte {
			// item i refers to item i-1
			b := gen.Varint([]byte{0x2b}, uint64(n+1))
			at := len(b)
			b = append(b, 7)
			for i := 0; i < n; i++ {
				b[at] |= 0x80
				next := len(b)
				b = gen.Varint(append(b, 0x29), uint64(at+base))
				at = next
			}
			return b
		}},
	}
}

// largeShapes have more items, or deeper ones, than any limit inside a decoder
// ought to be.
func largeShapes(counts, depths []int) (r []shape) {
	for _, s := range sizeShapes() {
		switch s.name {
		case "array", "hash", "array of arrays":
			s.sizes = counts
		case "nested arrays", "nested arrayrefs", "nested hashes", "nested refs to array", "nested objects":
			s.sizes = depths
		default:
			continue
		}
		r = append(r, s)
	}
	for _, more := range []shape{
		{"array of strings", counts, func(_, n int) []byte {
			return cat(gen.Varint([]byte{0x2b}, uint64(n)), bytes.Repeat(gen.Short("s"), n))
		}},
		{"array of copies", counts, func(base, n int) []byte {
			b := cat(gen.Varint([]byte{0x2b}, uint64(n)))
			at := len(b)
			b = append(b, gen.UTF8("s")...)
			return append(b, bytes.Repeat(gen.Varint([]byte{0x2f}, uint64(at+base)), n-1)...)
		}},
		{"array of references", counts, func(base, n int) []byte {
			b := cat(gen.Varint([]byte{0x2b}, uint64(n)))
			at := len(b) + 1
			b = append(b, 0x28, 0xab, 1, 7)
			return append(b, bytes.Repeat(gen.Varint([]byte{0x29}, uint64(at+base)), n-1)...)
		}},
		{"array of hashes", counts, func(base, n int) []byte {
			b := cat(gen.Varint([]byte{0x2b}, uint64(n)), []byte{0x51})
			at := len(b)
			b = cat(b, keyN(1), []byte{7})
			return append(b, bytes.Repeat(append(gen.Varint([]byte{0x51, 0x2f}, uint64(at+base)), 8), n-1)...)
		}},
		{"array of objects", counts, func(base, n int) []byte {
			b := cat(gen.Varint([]byte{0x2b}, uint64(n)), []byte{0x2c})
			at := len(b)
			b = cat(b, keyN(1), []byte{0x41, 7})
			return append(b, bytes.Repeat(append(gen.Varint([]byte{0x2d}, uint64(at+base)), 0x41, 8), n-1)...)
		}},
		each("array of arrays that are each referred to", counts, []byte{0xab, 1, 7}, 0, 0x29, nil),
		each("array of references that are each referred to", counts, []byte{0x28, 0xab, 0}, 1, 0x29, nil),
		each("array of strings that are each aliased", counts, []byte{0xe1, 's'}, 0, 0x2e, nil),
		each("array of strings that are each copied", counts, gen.Short("s"), 0, 0x2f, nil),
		each("array of arrays that are each copied", counts, []byte{0x41, 7}, 0, 0x2f, nil),
		each("array of objects whose classes are each used again", counts, cat([]byte{0x2c}, gen.Short("s"), []byte{0x40}), 1, 0x2d, []byte{0x41, 7}),
		{"array of hashes whose keys are each used again", counts, func(base, n int) []byte {
			n /= 2
			b := gen.Varint([]byte{0x2b}, uint64(2*n))
			at := len(b)
			b = append(b, bytes.Repeat(cat([]byte{0x51}, gen.Short("k"), []byte{7}), n)...)
			for i := 0; i < n; i++ {
				b = append(gen.Varint(append(b, 0x51, 0x2f), uint64(at+4*i+1+base)), 8)
			}
			return b
		}},
	} {
		r = append(r, more)
	}
	return r
}

// each is an array of n items and n tags with offsets of something in each.
func each(name string, counts []int, item []byte, at int, tag byte, rest []byte) shape {
	return shape{name, counts, func(base, n int) []byte {
		n /= 2
		b := gen.Varint([]byte{0x2b}, uint64(2*n))
		first := len(b) + at + base
		b = append(b, bytes.Repeat(item, n)...)
		for i := 0; i < n; i++ {
			b = append(gen.Varint(append(b, tag), uint64(first+i*len(item))), rest...)
		}
		return b
	}}
}

// far puts filler between what is referred to and what refers to it, and in
// front of both.
var fars = func() []shape {
	kinds := []struct {
		name   string
		first  []byte // referred to at
		at     int
		track  bool
		second func(off uint64) []byte
	}{
		{"refp", []byte{0x28, 0x2b, 1, 7}, 1, true, func(o uint64) []byte { return gen.Varint([]byte{0x29}, o) }},
		{"refp to string", gen.Short("abc"), 0, true, func(o uint64) []byte { return gen.Varint([]byte{0x29}, o) }},
		{"alias", cat([]byte{0x51}, keyN(1), []byte{7}), 0, true, func(o uint64) []byte { return gen.Varint([]byte{0x2e}, o) }},
		{"copy", gen.UTF8("text"), 0, false, func(o uint64) []byte { return gen.Varint([]byte{0x2f}, o) }},
		{"copy of hash", cat([]byte{0x2a, 1}, keyN(1), []byte{7}), 0, false, func(o uint64) []byte { return gen.Varint([]byte{0x2f}, o) }},
		{"copied key", cat([]byte{0x51}, keyN(1), []byte{7}), 1, false, func(o uint64) []byte { return cat([]byte{0x51}, gen.Varint([]byte{0x2f}, o), []byte{9}) }},
		{"objectv", cat([]byte{0x2c}, keyN(1), []byte{0x41, 7}), 1, false, func(o uint64) []byte { return cat(gen.Varint([]byte{0x2d}, o), []byte{0x41, 9}) }},
		{"copied class", cat([]byte{0x2c}, keyN(1), []byte{0x41, 7}), 1, false, func(o uint64) []byte { return cat([]byte{0x2c}, gen.Varint([]byte{0x2f}, o), []byte{0x41, 9}) }},
		{"objectv_freeze", cat([]byte{0x32}, keyN(1), []byte{0x28, 0x2b, 1}, keyN(2)), 1, false, func(o uint64) []byte { return cat(gen.Varint([]byte{0x33}, o), []byte{0x28, 0x2b, 1}, keyN(3)) }},
		{"copied pattern", gen.Binary("patt"), 0, false, func(o uint64) []byte {
			return cat([]byte{0x31}, gen.Varint([]byte{0x2f}, o), gen.Varint([]byte{0x2f}, o))
		}},
	}
	var r []shape
	for _, k := range kinds {
		k := k
		front := []int{0, 1, 50, 110, 120, 121, 122, 123, 124, 125, 126, 127, 128, 129, 16300, 16375, 16376, 16377, 16378, 16379, 16380, 16381, 16382, 16383, 16384, 2097140, 2097147, 2097148, 2097149, 2097150, 2097151}
		between := []int{0, 3, 120, 128, 16384, 70000}
		r = append(r, shape{k.name, ints([2]int{0, len(front)*len(between) - 1}), func(base, n int) []byte {
			b := cat([]byte{0x2b, 5}, gen.Binary(filled(front[n%len(front)])))
			at := len(b) + k.at
			b = cat(b, k.first, gen.Binary(filled(between[n/len(front)])), k.second(uint64(at+base)), []byte{8})
			if k.track {
				b[at] |= 0x80
			}
			return b
		}})
	}
	return r
}()

// wrappings are all versions and document types, and header suffixes.
type wrapping struct {
	version, typ int
	suffix       []byte
}

func wrappings() (w []wrapping) {
	for v := 1; v <= 4; v++ {
		for _, typ := range gen.Types(v) {
			for _, s := range [][]byte{nil, {1, 7}, {0}, append([]byte{2}, filled(200)...)} {
				if v > 1 || len(s) == 0 || s[0] != 1 {
					w = append(w, wrapping{v, typ, s})
				}
			}
		}
	}
	return w
}

func (w wrapping) doc(body []byte) []byte { return gen.Doc(w.version, w.typ, w.suffix, body) }
func (w wrapping) base() int              { return gen.Base(w.version, w.suffix) }

func p04wrapped(c *Ctx, t *T, w wrapping, body []byte) {
	doc := w.doc(body)
	d, err := ref.Parse(doc)
	if err != nil || !settled(d.Feats) {
		t.Count(unsettled(d, err))
		return
	}
	t.Count("compared")
	t.Sample(func() string { return hexdump(doc) })
	for _, m := range modes {
		conform(t, doc, d.Body, m, newDecoder(m))
	}
}

func intItems(small uint64) (items [][]byte) {
	for i := 0; i < 128; i++ {
		items = append(items, []byte{byte(i & 31)})
	}
	seen := map[uint64]bool{}
	add := func(v uint64) {
		if !seen[v] {
			seen[v] = true
			items = append(items, gen.VarintItem(v), gen.ZigzagItem(int64(v)))
		}
	}
	for i := uint64(0); i < small; i++ {
		add(i)
		add(-i)
	}
	for s := uint(0); s < 64; s++ {
		for d := uint64(0); d < 9; d++ {
			add(1<<s + d)
			add(1<<s - d)
			add(-(1 << s) + d)
			add(-(1 << s) - d)
			add(0x5555555555555555>>s + d)
		}
	}
	for s := uint(0); s < 32; s++ {
		for m := uint32(0); m < 8; m++ {
			items = append(items, gen.Float32(math.Float32frombits(1<<s-1+m)), gen.Float32(math.Float32frombits(0xff<<23+1<<s+m)), gen.Float32(math.Float32frombits(m<<29|1<<s)))
		}
	}
	for s := uint(0); s < 64; s++ {
		for m := uint64(0); m < 8; m++ {
			items = append(items, gen.Float64(math.Float64frombits(1<<s-1+m)), gen.Float64(math.Float64frombits(0x7ff<<52+1<<s+m)), gen.Float64(math.Float64frombits(m<<61|1<<s)))
		}
	}
	return items
}

func p04shapes(thorough bool) []Space {
	sized := func(name, what string, shapes []shape, wraps []wrapping) Space {
		return Space{Name: name, What: what, Prog: func(c *Ctx, t *T) {
			s := oneOf(c, shapes)
			n := oneOf(c, s.sizes)
			w := oneOf(c, wraps)
			c.Ready()
			p04wrapped(c, t, w, s.make(w.base(), n))
		}}
	}
	all := wrappings()
	simple := []wrapping{{3, gen.Raw, nil}}
	if thorough {
		simple = []wrapping{{1, gen.Raw, nil}, {2, gen.SnappyIncr, nil}, {3, gen.Raw, nil}, {4, gen.Zlib, nil}}
	}
	var numbers [][]byte
	small := gen.Grammar{Tokens: 3, MaxKids: 2, Leaves: gen.SomeLeaves(), Array: true, Hash: true, Inline: true, Refn: true, Refp: true, Alias: true, Copy: true, Object: true, Freeze: true, Weak: true, Regexp: true, Pad: true}
	if thorough {
		small.Tokens = 4
	}
	var smallSizes []shape
	for _, s := range sizeShapes() {
		var n []int
		for _, x := range s.sizes {
			if x <= 3 || x >= 14 && x <= 17 || x >= 31 && x <= 33 || x >= 126 && x <= 129 || x == 256 || x == 16384 {
				n = append(n, x)
			}
		}
		s.sizes = n
		smallSizes = append(smallSizes, s)
	}
	return []Space{
		sized("sizes", "strings, keys, class names, containers, chains and pads of every size up to a bound and around the powers of 128, in 4 modes", sizeShapes(), simple),
		sized("large", "documents of up to 600 000 items, and up to 200 000 levels", largeShapes([]int{140000, 270000, 600000}, []int{2000, 5000, 20000, 70000, 140000, 200000}), simple[:1]),
		sized("sizes wrapped", "fewer sizes, in all versions, document types and with header suffixes", smallSizes, all),
		sized("offsets", "everything that has an offset, with filler that moves it across the lengths of varints", fars, simple),
		sized("offsets wrapped", "offsets in all versions, document types and with header suffixes", func() (r []shape) {
			for _, s := range fars {
				s.sizes = append(ints([2]int{0, 24}), ints([2]int{31, 31 + 24})...)
				r = append(r, s)
			}
			return r
		}(), all),
		{Name: "numbers", What: "integers and floats: all small ones, all bit lengths, special values; alone and in containers", Prog: func(c *Ctx, t *T) {
			if numbers == nil {
				numbers = intItems(70000)
			}
			i := c.Choose(len(numbers))
			c.Ready()
			x := numbers[i]
			p04doc(c, t, 3, cat([]byte{0x42}, x, []byte{0x51}, keyN(1), x))
			p04doc(c, t, 3, x)
		}},
		{Name: "wrapped", What: fmt.Sprintf("all documents of at most %d items of the whole grammar in all versions, document types and header suffixes", small.Tokens), Prog: func(c *Ctx, t *T) {
			w := oneOf(c, all)
			g := small
			g.Base = w.base()
			body := g.Body(c)
			c.Ready()
			p04wrapped(c, t, w, body)
		}},
	}
}
