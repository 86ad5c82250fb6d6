package checks

import (
	"bytes"
	"errors"
	"fmt"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P10", Spaces: p10, Assumptions: []string{
		"The reference parser (mc/ref) says what documents contain; the merged document is compared with the appended ones as a graph.",
		"Not asked of the merger: PAD between OBJECT and its class name or in front of a container to be flattened, regexps with COPY in place of strings, references to the container that is flattened.",
	}})
}

// merging is a merger and what should be in it.
type merging struct {
	t     *T
	m     *sereal.Merger
	flat  bool
	array bool
	v2    bool
	name  string
	want  []*ref.Node
	docs  [][]byte
	spoil bool // a document was merged of which nothing can be asked
}

func newMerging(t *T, m *sereal.Merger, v2 bool, name string) *merging {
	return &merging{t: t, m: m, flat: m.KeepFlat, array: m.TopLevelElement == sereal.TopLevelArray, v2: v2, name: name}
}

// number i of newMerger
func mergingNo(t *T, i int) *merging {
	return newMerging(t, newMerger(i), i&8 != 0, mergerName(i))
}

func (g *merging) fail(f string, a ...interface{}) {
	var ds []string
	for _, d := range g.docs {
		ds = append(ds, hexdump(d))
	}
	g.t.Failf("Merger %s: %s: %s", g.name, strings.Join(ds, " | "), fmt.Sprintf(f, a...))
}

// elements are what a document contributes.
func (g *merging) elements(d *ref.Doc) []*ref.Node {
	n := d.Body
	if g.flat {
		if g.array && n.Kind == ref.Array {
			return n.Kids
		}
		if !g.array && n.Kind == ref.Ref && !n.ByREFP && n.Kids[0].Kind == ref.Array {
			return n.Kids[0].Kids
		}
	}
	return []*ref.Node{n}
}

// asked tells whether the merger has to take the document.
func (g *merging) asked(d *ref.Doc, err error) bool {
	if err != nil {
		return false
	}
	f := d.Feats
	f.LongDouble = false // it is only copied
	if !settled(f) {
		return false
	}
	if d.Feats.Pads && oddPads(d.Raw) {
		return false
	}
	if g.flat {
		// what is flattened must not be referred to
		for _, top := range []*ref.Node{d.Body, kid(d.Body)} {
			if top != nil && len(g.elements(d)) > 0 && g.elements(d)[0] != d.Body || top != nil && len(top.Kids) == 0 {
				if top != nil && (top.Tracked || top.Aliased) {
					return false
				}
			}
		}
	}
	return true
}

func kid(n *ref.Node) *ref.Node {
	if n.Kind == ref.Ref {
		return n.Kids[0]
	}
	return nil
}

func oddPads(raw []byte) bool {
	s := strings.ReplaceAll(string(raw), "\xbf", "\x3f")
	return s[0] == 0x3f || strings.Contains(s, "\x2c\x3f") || strings.Contains(s, "\x32\x3f") || strings.Contains(s, "\x31\x3f") || strings.Contains(s, "\x28\x3f")
}

// add appends a document, which is valid.
func (g *merging) add(doc []byte, d *ref.Doc) {
	g.docs = append(g.docs, doc)
	els := g.elements(d)
	var n int
	err := safe(func() (err error) { n, err = g.m.Append(doc); return })
	if err != nil {
		g.fail("Append: %v", err)
		return
	}
	if n != len(els) {
		g.fail("Append returns %d for %d elements", n, len(els))
	}
	g.want = append(g.want, els...)
}

// finish checks the merged document.
func (g *merging) finish() []byte {
	var out []byte
	err := safe(func() (err error) { out, err = g.m.Finish(); return })
	if err != nil {
		g.fail("Finish: %v", err)
		return nil
	}
	if g.spoil {
		return out
	}
	g.check(out)
	return out
}

func (g *merging) check(out []byte) {
	d, err := ref.Parse(out)
	if err == nil && (len(bytes.Trim(d.Raw[d.End:], "\x3f")) > 0 || d.Feats.DupKeys) {
		err = errors.New("trailing bytes or duplicate keys")
	}
	version := 3
	if g.v2 {
		version = 2
	}
	if err == nil && d.Version != version {
		err = fmt.Errorf("has version %d", d.Version)
	}
	if err == nil {
		want := &ref.Node{Kind: ref.Array, Kids: g.want}
		if !g.array {
			want = &ref.Node{Kind: ref.Ref, Kids: []*ref.Node{want}}
		}
		err = ref.SameParsed(want, d.Body)
	}
	if err != nil {
		g.fail("merged into %s: %v", hexdump(out), err)
	}
}

// p10docs merges documents that are all valid.
func p10docs(t *T, g *merging, docs ...[]byte) {
	for _, doc := range docs {
		d, err := ref.Parse(doc)
		if !g.asked(d, err) {
			t.Count(unsettled(d, err))
			return
		}
		g.add(doc, d)
		if t.Failed() {
			return
		}
	}
	t.Count(fmt.Sprintf("%d merged", len(docs)))
	t.Sample(func() string {
		s := g.name
		for _, d := range docs {
			s += " | " + hexdump(d)
		}
		return s
	})
	g.finish()
}

var longDouble = []byte("\x24\x2f\x01\x2f\x01\x2f\x01\x2f\x01\x2f\x01\x00\x00\xff\x3f\x2f\x01")

func p10(thorough bool) []Space {
	more := 0
	if thorough {
		more = 1
	}
	var r []Space
	one := func(name string, g gen.Grammar) {
		r = append(r, Space{Name: "one: " + name, What: fmt.Sprintf("all documents of at most %d items of the grammar %s, merged alone and behind another, by 16 mergers", g.Tokens, name), Prog: func(c *Ctx, t *T) {
			g := g
			g.Base, g.Keys = 1, "k"
			body := g.Body(c)
			i := c.Choose(16)
			behind := c.Bool()
			c.Ready()
			docs := [][]byte{rawDoc(3, body)}
			if behind {
				docs = append([][]byte{rawDoc(3, cat([]byte{0x43}, gen.Short("bb"), gen.Binary("b"), []byte{0x2c}, gen.Short("Cls"), []byte{0x52}, gen.Short("ka"), gen.Short("kb"), gen.Short("kb"), gen.UTF8("u")))}, docs...)
			}
			p10docs(t, mergingNo(t, i), docs...)
		}})
	}
	few := [][]byte{{0x25}, {7}, gen.Short("bb")}
	long := [][]byte{longDouble, gen.Short("bb")}
	all := gen.Grammar{Tokens: 3 + more, MaxKids: 2, Leaves: gen.SomeLeaves(), Array: true, Hash: true, Inline: true, Refn: true, Refp: true, Alias: true, Copy: true, Object: true, Freeze: true, Weak: true, Regexp: true}
	leaves := all
	leaves.Tokens, leaves.Leaves = 3, append(gen.AllLeaves(), longDouble)
	one("everything", all)
	one("leaves", leaves)
	one("references", gen.Grammar{Tokens: 5 + more, MaxKids: 3, Leaves: [][]byte{gen.Short("bb")}, Array: true, Refn: true, Refp: true, Alias: true})
	one("inline references", gen.Grammar{Tokens: 5 + more, MaxKids: 3, Leaves: [][]byte{gen.Short("bb")}, Inline: true, Array: true, Hash: true, Refp: true})
	one("copies", gen.Grammar{Tokens: 4 + more, MaxKids: 3, Leaves: few, Array: true, Hash: true, Copy: true, Refn: true})
	one("copies of similar strings", gen.Grammar{Tokens: 4 + more, MaxKids: 3, Leaves: [][]byte{gen.Short("bb"), gen.UTF8("bb"), gen.Binary("bb"), gen.Short("\x02bb")}, Array: true, Copy: true, Object: true})
	one("class copies", gen.Grammar{Tokens: 6 + more, MaxKids: 4, Leaves: [][]byte{gen.Short("bb")}, Array: true, Copy: true, Object: true})
	one("objects", gen.Grammar{Tokens: 5 + more, MaxKids: 2, Leaves: [][]byte{gen.Short("Cls")}, Array: true, Hash: true, Refn: true, Refp: true, Object: true, Freeze: true})
	one("long doubles", gen.Grammar{Tokens: 4 + more, MaxKids: 3, Leaves: long, Array: true, Hash: true, Refn: true, Refp: true, Copy: true, Object: true})
	one("pads", gen.Grammar{Tokens: 4 + more, MaxKids: 2, Leaves: few, Array: true, Hash: true, Inline: true, Refn: true, Refp: true, Pad: true})

	pair := gen.Grammar{Tokens: 3, MaxKids: 2, Leaves: [][]byte{gen.Short("bb"), gen.UTF8("bb")}, Array: true, Hash: true, Inline: true, Refn: true, Refp: true, Copy: true, Object: true}
	second := pair
	if !thorough {
		second.Tokens = 2
		second.Leaves = second.Leaves[:1]
	}
	r = append(r, Space{Name: "two", What: fmt.Sprintf("all pairs of documents of at most %d and %d items, merged by 8 mergers", pair.Tokens, second.Tokens), Prog: func(c *Ctx, t *T) {
		g, h := pair, second
		g.Base, h.Base = 1, 1
		g.Keys, h.Keys = "k", "k"
		a := g.Body(c)
		b := h.Body(c)
		if c.Bool() {
			a, b = b, a
		}
		i := c.Choose(8)
		c.Ready()
		p10docs(t, mergingNo(t, i), rawDoc(3, a), rawDoc(3, b))
	}})

	// what encoders write
	list := mergeable()
	n := 3
	r = append(r, Space{Name: "three", What: fmt.Sprintf("all sequences of up to %d out of %d documents with shared keys, classes, references and text and binary strings, by 16 mergers", n, len(list)), Prog: func(c *Ctx, t *T) {
		i := c.Choose(16)
		var docs [][]byte
		for k := c.Choose(n + 1); k > 0; k-- {
			docs = append(docs, oneOf(c, list))
		}
		c.Ready()
		p10docs(t, mergingNo(t, i), docs...)
	}})
	g := heapGrammar{tokens: 4 + more, maxKids: 2, leaves: []interface{}{nil, "Cls"}, slices: true, maps: true, boxes: true, pmaps: true, perl: true}
	r = append(r, Space{Name: "encoded", What: fmt.Sprintf("what the encoders make of all graphs of at most %d values with pointers and Perl types, merged twice with others around, by 4 mergers", g.tokens), Prog: func(c *Ctx, t *T) {
		v := g.value(c)
		k := oneOf(c, []config{{version: 3}, {version: 3, perl: true}, {version: 1}, {version: 2, perl: true, nodedup: true}})
		i := oneOf(c, []int{0, 3, 4, 7})
		c.Ready()
		doc, err := k.marshal(nil, "head", v)
		if err != nil {
			t.Failf("%v: %v", k, err)
			return
		}
		p10docs(t, mergingNo(t, i), doc, list[4], doc)
	}})

	// versions, types and header data
	at := func(base, i int) []byte { return gen.Varint(nil, uint64(base+i)) }
	bodies := []func(base int) []byte{
		func(int) []byte { return []byte{7} },
		func(b int) []byte { return cat([]byte{0x42}, gen.Short("bb"), []byte{0x2f}, at(b, 1)) },
		func(b int) []byte { return cat([]byte{0x2b, 2, 0xc1, 7, 0x29}, at(b, 2)) },
		func(b int) []byte {
			return cat([]byte{0xab, 3, 0x29}, at(b, 0), []byte{0x88, 0x2e}, at(b, 3+len(at(b, 0))))
		},
		func(b int) []byte {
			return cat([]byte{0x42, 0x2c}, gen.Short("Cls"), []byte{0x51}, gen.Short("key"), []byte{1, 0x2d}, at(b, 2), []byte{0x51, 0x2f}, at(b, 7), []byte{2})
		},
		func(b int) []byte {
			return cat([]byte{0x2b, 3}, gen.Binary(filled(200)), []byte{0xab, 1, 7, 0x29}, at(b, 205))
		},
	}
	r = append(r, Space{Name: "versions", What: "documents of all versions and types, with and without header data, in pairs, by 4 mergers", Prog: func(c *Ctx, t *T) {
		i := oneOf(c, []int{0, 3, 9, 14})
		var docs [][]byte
		for k := 0; k < 2; k++ {
			w := oneOf(c, wrappings())
			if k == 0 && !thorough {
				w = oneOf(c, []wrapping{{1, gen.Snappy, nil}, {3, gen.Raw, []byte{0}}})
			}
			docs = append(docs, w.doc(oneOf(c, bodies)(w.base())))
		}
		c.Ready()
		p10docs(t, mergingNo(t, i), docs...)
	}})

	packs := []wrapping{{1, gen.Snappy, nil}, {1, gen.SnappyIncr, nil}, {2, gen.SnappyIncr, nil}, {3, gen.SnappyIncr, []byte{0}}, {3, gen.Zlib, nil}}
	pg := gen.Grammar{Tokens: 4 + more, MaxKids: 3, Leaves: [][]byte{gen.Short("bb"), gen.Binary("bb")}, Array: true, Refn: true, Refp: true, Copy: true, Object: true}
	r = append(r, Space{Name: "compressed", What: fmt.Sprintf("all documents of at most %d items, compressed in all ways, merged behind others by mergers with and without room for what comes", pg.Tokens), Prog: func(c *Ctx, t *T) {
		g := pg
		w := oneOf(c, packs)
		g.Base = w.base()
		body := g.Body(c)
		i := oneOf(c, []int{0, 3})
		expected := oneOf(c, []uint{0, 6000})
		front := c.Choose(2) * 2
		c.Ready()
		m := newMerger(i)
		m.ExpectedSize = expected
		var docs [][]byte
		for ; front > 0; front-- {
			docs = append(docs, rawDoc(3, cat([]byte{0x42}, gen.Short("bb"), gen.Binary(filled(130)))))
		}
		docs = append(docs, w.doc(body))
		p10docs(t, newMerging(t, m, i&8 != 0, fmt.Sprintf("%s, expecting %d bytes", mergerName(i), expected)), docs...)
	}})

	// offsets and counts that need more bytes after merging
	front := append(ints([2]int{0, 3}, [2]int{90, 132}, [2]int{16360, 16390}), 2097130, 2097140, 2097152)
	if thorough {
		front = append(ints([2]int{0, 300}, [2]int{16000, 16400}, [2]int{2097100, 2097160}), 5000000)
	}
	r = append(r, Space{Name: "offsets", What: "documents with every kind of offset behind a document of every length up to a bound and around the powers of 128", Prog: func(c *Ctx, t *T) {
		n := oneOf(c, front)
		s := oneOf(c, fars)
		size := oneOf(c, s.sizes[:5])
		i := oneOf(c, []int{0, 2, 5, 8})
		c.Ready()
		p10docs(t, mergingNo(t, i), rawDoc(3, gen.Binary(filled(n))), rawDoc(3, s.make(1, size)), rawDoc(3, s.make(1, size)))
	}})
	counts := append(ints([2]int{0, 20}, [2]int{120, 135}), 1000, 16380, 16383, 16384, 16390)
	elements := append(ints([2]int{0, 17}, [2]int{126, 129}), 300, 16383, 16384)
	if thorough {
		elements = append(elements, 70000, 2097151, 2097152)
	}
	r = append(r, Space{Name: "counts", What: "so many documents that the number of elements needs more bytes, and documents with so many elements", Prog: func(c *Ctx, t *T) {
		i := c.Choose(8)
		var docs [][]byte
		if c.Bool() {
			for k := oneOf(c, counts); k > 0; k-- {
				docs = append(docs, list[k%len(list)])
			}
		} else {
			n := oneOf(c, elements)
			body := append(gen.Varint([]byte{0x2b}, uint64(n)), strings.Repeat("\x05", n)...)
			switch form := c.Choose(3); {
			case form == 1:
				body = append([]byte{0x28}, body...)
			case form == 2 && n < 16:
				body = append([]byte{0x40 + byte(n)}, body[len(body)-n:]...)
			}
			docs = [][]byte{rawDoc(3, body), list[0], rawDoc(3, body)}
		}
		c.Ready()
		g := mergingNo(t, i)
		for _, doc := range docs {
			d, err := ref.Parse(doc)
			if !g.asked(d, err) {
				continue
			}
			g.add(doc, d)
			g.docs = nil
		}
		t.Count(fmt.Sprintf("%d documents", len(docs)))
		g.finish()
	}})
	sized := sizeShapes()
	r = append(r, Space{Name: "sizes", What: "strings, keys, class names, containers, nestings and chains of all sizes up to a bound and around the powers of 128, merged twice by 4 mergers", Prog: func(c *Ctx, t *T) {
		s := oneOf(c, sized)
		n := oneOf(c, s.sizes)
		i := oneOf(c, []int{0, 3, 4, 7})
		c.Ready()
		doc := rawDoc(3, s.make(1, n))
		p10docs(t, mergingNo(t, i), doc, list[3], doc)
	}})

	large := largeShapes([]int{140000, 300000}, []int{2000, 20000, 100000})
	r = append(r, Space{Name: "large", What: "hundreds of thousands of items, and nestings of up to 100000 levels, merged twice by 2 mergers", Prog: func(c *Ctx, t *T) {
		s := oneOf(c, large)
		n := oneOf(c, s.sizes)
		i := oneOf(c, []int{0, 7})
		c.Ready()
		doc := rawDoc(3, s.make(1, n))
		p10docs(t, mergingNo(t, i), doc, list[3], doc)
	}})

	// compression and the other settings
	r = append(r, Space{Name: "similar", What: "what the encoders make of keys, strings, class names and frozen data of many lengths that differ in little, merged one after the other and together, by 4 mergers", Prog: func(c *Ctx, t *T) {
		pair := oneOf(c, similarPairs())
		f := oneOf(c, append(similarValues[:len(similarValues):len(similarValues)], similarPerl...))
		i := oneOf(c, []int{0, 3, 4, 7})
		c.Ready()
		var docs [][]byte
		for j, v := range []interface{}{f(pair[0], pair[0]), f(pair[1], pair[1]), f(pair[0], pair[1])} {
			doc, err := config{version: 3, nodedup: j == 1}.marshal(nil, nil, v)
			if err != nil {
				t.Failf("%v", err)
				return
			}
			docs = append(docs, doc)
		}
		p10docs(t, mergingNo(t, i), docs...)
	}})
	r = append(r, Space{Name: "settings", What: "merging of documents with all compressions, levels and thresholds around the size, expected sizes, and constructors", Prog: func(c *Ctx, t *T) {
		maker := c.Choose(4)
		m := []func() *sereal.Merger{sereal.NewMerger, sereal.NewMergerV2, sereal.NewMergerV3, func() *sereal.Merger { return &sereal.Merger{} }}[maker]()
		comp := oneOf(c, []config{{}, {comp: gen.SnappyIncr}, {comp: gen.Zlib}, {comp: gen.Zlib, level: 1}, {comp: gen.Zlib, level: -1}, {comp: gen.Zlib, level: 9}, {comp: gen.Zstd}})
		m.ExpectedSize = oneOf(c, []uint{0, 1, 5, 6, 100, 5000})
		docs := oneOf(c, [][][]byte{nil, list[:1], list[:6], {rawDoc(3, gen.Binary(strings.Repeat("a", 5000))), list[4]}, {rawDoc(3, gen.Binary(noise(1100)))}})
		size := 100
		if comp.comp != 0 {
			m.CompressionThreshold = oneOf(c, []int{0, 1, 1024, size, -1, 1 << 30})
		}
		c.Ready()
		e := config{version: 3, comp: comp.comp, level: comp.level}.encoder()
		m.Compression = e.Compression
		g := newMerging(t, m, maker == 1, fmt.Sprintf("made by constructor %d, %v, threshold %d", maker, comp, m.CompressionThreshold))
		if comp.comp == gen.Zlib && maker == 1 || comp.comp == gen.Zstd {
			// version 2 has no zlib, and 3 no zstd
			for _, doc := range docs {
				d, _ := ref.Parse(doc)
				g.add(doc, d)
			}
			for i := 0; i < 2; i++ {
				out, err := m.Finish()
				if err == nil {
					if d, e := ref.Parse(out); e != nil || d.Type == comp.comp {
						g.fail("Finish: %s, %v", hexdump(out), e)
					} else {
						g.check(out)
					}
				}
			}
			return
		}
		p10docs(t, g, docs...)
		if out, err := m.Finish(); err == nil && comp.comp != 0 && m.CompressionThreshold <= 1 && out[4]>>4 != byte(comp.comp) {
			g.fail("not compressed: %s", hexdump(out))
		}
	}})
	var packed [][]byte
	r = append(r, zstdBuild([]Space{{Name: "zstd", What: "all sequences of 2 documents that could get in each other's way, compressed with zstd or not, merged by 16 mergers", Prog: func(c *Ctx, t *T) {
		if packed == nil {
			for _, doc := range list {
				if d, err := ref.Parse(doc); err == nil && d.Version > 1 {
					packed = append(packed, gen.Doc(4, gen.Zstd, []byte{1, 7}, d.Raw))
				}
			}
			packed = append(packed, list...)
		}
		x, y, i := oneOf(c, packed), oneOf(c, packed), c.Choose(16)
		c.Ready()
		p10docs(t, mergingNo(t, i), x, y)
	}}})...)
	return r
}

// mergeable are documents that could get in each other's way.
func mergeable() [][]byte {
	p := &map[string]interface{}{"key": "val"}
	var r [][]byte
	add := func(k config, v interface{}) {
		doc, err := k.marshal(nil, nil, v)
		if err != nil {
			panic(err)
		}
		r = append(r, doc)
	}
	v3, v1 := config{version: 3}, config{version: 1, perl: true}
	add(v3, 7)
	add(v3, "val")
	add(v3, []byte("val"))
	add(v3, map[string]interface{}{"key": "key", "val": []byte("key")})
	add(v1, []interface{}{p, p, "Cls"})
	add(v3, []interface{}{"val", "val", p, p})
	r = append(r,
		rawDoc(3, cat([]byte{0x42, 0x2c}, gen.Short("Cls"), []byte{0x51}, gen.Short("key"), []byte{1, 0x2d, 3, 0x51, 0x2f, 8, 2})),
		rawDoc(3, cat([]byte{0x42, 0x2c}, gen.UTF8("Cls"), []byte{0x41, 1, 0x32}, gen.Short("Cls"), []byte{0x28, 0x2b, 1}, gen.Short("key"))),
		rawDoc(2, cat([]byte{0x28, 0x2b, 3}, []byte{0xe3}, []byte("val"), []byte{0x29, 4}, gen.Short("val"))),
		rawDoc(2, cat([]byte{0x2b, 3}, gen.Short("key"), []byte{0x2f, 3}, []byte{0x51, 0x2f, 3, 8})),
		rawDoc(3, cat([]byte{0x2b, 2}, []byte{0xe3}, []byte("val"), []byte{0x2e, 3})),
		rawDoc(3, cat([]byte{0x28, 0xab, 1, 0x29, 2})),
		rawDoc(3, cat([]byte{0x43, 0x52}, gen.Short("key"), gen.Short("val"), gen.UTF8("key"), gen.UTF8("val"), []byte{0x31}, gen.Short("key"), gen.Short("i"), []byte{0x39})),
		// strings that differ in little but their tags
		rawDoc(3, cat([]byte{0x45}, gen.Binary("val"), gen.UTF8("val"), gen.Short("\x03val"), gen.Short("\x26\x03val"), gen.Binary(strings.Repeat("val ", 20)))),
		rawDoc(3, cat([]byte{0x44}, gen.UTF8(strings.Repeat("val ", 20)), gen.Short("\x03val"), gen.UTF8("val"), gen.Binary("val"))),
		rawDoc(3, cat([]byte{0x43, 0x2c}, gen.UTF8("Cls"), []byte{0x41, 1, 0x2c}, gen.Short("\x03Cls"), []byte{0x41, 2, 0x2c}, gen.Binary("Cls"), []byte{0x41, 3})),
	)
	return r
}
