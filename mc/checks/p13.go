package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/order"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P13", Spaces: p13, Assumptions: []string{
		"Memory is compared by address: what a value consists of is found by reflection, slices up to their capacity.",
		"The one canonical undef that PerlCompat decoding hands out is shared on purpose. Strings cannot be changed, so that values may share their text with each other, though not with the document.",
		"Hooks (UnmarshalBinary) are handed bytes that they must copy, as encoding.BinaryUnmarshaler says; so hooks of the harness do.",
	}})
}

// p13decode runs one decoding and checks who owns what.
func p13decode(t *T, doc []byte, k *call, m ref.Mode, distinct bool) {
	what := func() string { return fmt.Sprintf("%s into %v, %s", hexdump(doc), k.into, modeName(m)) }
	mine := *k
	mine.doc = clone(doc)
	want, werr := mine.decode(newDecoder(m))

	g := guard(doc)
	mine.doc = g.doc
	d := newDecoder(m)
	got, err := mine.decode(d)
	if e := g.changed(); e != nil {
		t.Failf("%s: the document: %v", what(), e)
		return
	}
	if !sameError(err, werr) {
		t.Failf("%s: %v and %v", what(), err, werr)
		return
	}
	if err != nil {
		t.Count("errors")
		return
	}
	t.Count("decoded")
	mem := memory(got)
	if e := within(mem, g.all); e != nil {
		t.Failf("%s: the document: %v", what(), e)
		return
	}
	g.scribble()
	if e := deepSame(want, got); e != nil {
		t.Failf("%s: after overwriting the document: %v", what(), e)
		return
	}
	if e := overlaps(mem, !distinct); e != nil {
		t.Failf("%s: %v", what(), e)
		return
	}
	// another value by the same decoder, and the first one overwritten
	g.scribble()
	next, err := mine.decode(d)
	if err != nil {
		t.Failf("%s: the second time: %v", what(), err)
		return
	}
	if e := apart(mem, memory(next)); e != nil {
		t.Failf("%s: decoded twice: %v", what(), e)
		return
	}
	if e := deepSame(want, got); e != nil {
		t.Failf("%s: after decoding it again: %v", what(), e)
		return
	}
	scribble(reflect.ValueOf(got), map[ptrID]bool{})
	if e := deepSame(want, next); e != nil {
		t.Failf("%s: after overwriting another value: %v", what(), e)
	}
	if e := g.changed(); e != nil {
		t.Failf("%s: overwriting the value: the document: %v", what(), e)
	}
}

// sharing tells whether an item of a document is referred to.
func sharing(n *ref.Node, seen map[*ref.Node]bool) bool {
	if seen[n] {
		return true
	}
	seen[n] = true
	if n.Tracked || n.Aliased || n.ByREFP {
		return true
	}
	for _, k := range n.Kids {
		if sharing(k, seen) {
			return true
		}
	}
	return false
}

// slackHook hands out a slice with room behind it.
type slackHook struct{ B []byte }

func (h slackHook) MarshalBinary() ([]byte, error) { return h.B, nil }

type namedBytes []byte

func slack(s string) []byte {
	b := append([]byte(s), "SLACK SLACK SLACK SLACK"...)
	return b[:len(s)]
}

// p13encode encodes a value and checks who owns what.
func p13encode(t *T, k config, header, v interface{}) {
	what := func() string { return fmt.Sprintf("%v: %#v", k, v) }
	both := []interface{}{header, v}
	was := snapshot(both)
	e := k.encoder()
	enc := func(e *sereal.Encoder) (doc []byte, err error) {
		err = safe(func() (err error) {
			order.Explore(nil, func() { doc, err = e.MarshalWithHeader(header, v) })
			return
		})
		return
	}
	doc, err := enc(e)
	if now := snapshot(both); now != was {
		t.Failf("%s: was %s, is %s", what(), was, now)
		return
	}
	if err != nil {
		t.Count("errors")
		return
	}
	t.Count("encoded")
	mem := memory(both)
	if e := within(mem, doc); e != nil {
		t.Failf("%s: result: %v", what(), e)
		return
	}
	copied := clone(doc)
	// the same encoder again, and the first result overwritten up to its capacity
	doc2, err := enc(e)
	if err != nil || len(doc2) != len(doc) && !k.varies() {
		t.Failf("%s: the second time: %v, %s", what(), err, hexdump(doc2))
		return
	}
	if e := within([]span{{addr(doc), addr(doc) + uintptr(cap(doc)), 's', "first result"}}, doc2); e != nil {
		t.Failf("%s: second result: %v", what(), e)
		return
	}
	if !bytes.Equal(doc, copied) {
		t.Failf("%s: the first result changed when encoding again", what())
		return
	}
	copied2 := clone(doc2)
	full := doc[:cap(doc)]
	for i := range full {
		full[i] ^= 0x5a
	}
	if !bytes.Equal(doc2, copied2) {
		t.Failf("%s: the second result changed with the first", what())
		return
	}
	if now := snapshot(both); now != was {
		t.Failf("%s: changed with the result", what())
		return
	}
	doc3, err := enc(e)
	if err != nil || !bytes.Equal(doc3, copied) && !k.varies() {
		t.Failf("%s: the third time, with earlier results overwritten: %v, %s instead of %s", what(), err, hexdump(doc3), hexdump(copied))
		return
	}
	copied3 := clone(doc3)
	scribble(reflect.ValueOf(both), map[ptrID]bool{})
	if !bytes.Equal(doc3, copied3) {
		t.Failf("%s: the result changed with the value", what())
	}
}

// varies tells whether documents of a value can differ.
func (k config) varies() bool { return !order.Hooked }

func p13(thorough bool) []Space {
	more := 0
	if thorough {
		more = 1
	}
	var r []Space
	docs := func(name string, g gen.Grammar) {
		r = append(r, Space{Name: "documents: " + name, What: fmt.Sprintf("all documents of at most %d items of the grammar %s, decoded as any value, in 4 modes", g.Tokens, name), Prog: func(c *Ctx, t *T) {
			g := g
			g.Base = 1
			doc := rawDoc(3, g.Body(c))
			m := oneOf(c, modes)
			c.Ready()
			d, err := ref.Parse(doc)
			p13decode(t, doc, &call{into: anyType}, m, err == nil && !sharing(d.Body, map[*ref.Node]bool{}))
		}})
	}
	every := gen.Grammar{Tokens: 4 + more, MaxKids: 2, Leaves: gen.SomeLeaves(), Array: true, Hash: true, Inline: true, Refn: true, Refp: true, Alias: true, Copy: true, Object: true, Freeze: true, Weak: true, Regexp: true}
	bin := gen.Grammar{Tokens: 5 + more, MaxKids: 3, Leaves: [][]byte{gen.Short("bb"), gen.UTF8("u"), gen.Binary("xyz"), {0x61, 0x41}}, Array: true, Hash: true, Copy: true, Refp: true}
	objs := gen.Grammar{Tokens: 4 + more, MaxKids: 2, Leaves: [][]byte{gen.Short("Cls"), gen.Binary("xyz")}, Array: true, Hash: true, Refn: true, Object: true, Freeze: true, Regexp: true, Copy: true}
	docs("everything", every)
	docs("bytes", bin)
	docs("objects", objs)

	types := append([]reflect.Type{anyType}, destinations...)
	r = append(r, Space{Name: "typed", What: fmt.Sprintf("valid bodies with all tags, with one byte changed, removed, added or cut off, into %d types", len(types)), Prog: func(c *Ctx, t *T) {
		n := len(seeds())
		i := c.Choose(n)
		b := clone(seeds()[i])
		if c.Bool() {
			if thorough {
				b = damaged([][]byte{b}).body(c)
			} else {
				b = twice([][]byte{b}, []byte{0x26, 0x2f, 3, 0x61}).body(c)
			}
		}
		into := oneOf(c, types)
		m := oneOf(c, modes)
		c.Ready()
		p13decode(t, rawDoc(3, b), &call{into: into}, m, false)
	}})
	tg := []interface{}{[]byte{}, [][]byte{}, [2][]byte{}, map[string][]byte{}, struct{ A, B []byte }{}, []struct{ A []byte }{}, map[string][][]byte{}, [3]byte{}, [][2]byte{}, "", []string{}, map[string]string{}, map[namedString][]byte{}, []*struct{ A []byte }{}, sereal.PerlFreeze{}, []sereal.PerlFreeze{}, sereal.PerlObject{}, []hookOK{}, namedBytes(nil), []namedBytes{}, []sereal.PerlRegexp{}, []*sereal.PerlRegexp{}, map[string]interface{}{}, []interface{}{}}
	fits := gen.Grammar{Tokens: 3 + more, MaxKids: 2, Keys: "A", Leaves: [][]byte{gen.Short("bb"), gen.UTF8("u"), gen.Binary("xyz")}, Array: true, Hash: true, Inline: true, Copy: true, Refn: true, Object: true, Freeze: true, Regexp: true}
	r = append(r, Space{Name: "typed bytes", What: fmt.Sprintf("all documents of at most %d items with byte strings, into %d types that hold bytes", fits.Tokens, len(tg)), Prog: func(c *Ctx, t *T) {
		g := fits
		g.Base = 1
		doc := rawDoc(3, g.Body(c))
		into := reflect.TypeOf(oneOf(c, tg))
		m := oneOf(c, modes)
		c.Ready()
		p13decode(t, doc, &call{into: into}, m, false)
	}})

	// headers, versions and compression
	sizes := append(ints([2]int{0, 20}, [2]int{30, 33}, [2]int{126, 130}), 1000, 16383, 16384, 40000)
	r = append(r, Space{Name: "compressed", What: "documents of all versions and types with strings of many sizes, header and body, decoded and decompressed", Prog: func(c *Ctx, t *T) {
		w := oneOf(c, wrappings())
		n := oneOf(c, sizes)
		how := c.Choose(5)
		var m ref.Mode
		into := anyType
		dst := 0
		if how < 3 {
			m.PerlCompat = c.Bool()
		} else {
			dst = c.Choose(5)
		}
		if how == 0 {
			into = oneOf(c, []reflect.Type{anyType, reflect.TypeOf([][]byte{}), reflect.TypeOf([]string{})})
		}
		c.Ready()
		text := noise(n/2) + filled(n-n/2)
		body := cat([]byte{0x2b, 3}, gen.Binary(text), gen.UTF8(strings.Repeat("u", n)), gen.Short("xyz"))
		doc := w.doc(body)
		if how < 3 {
			p13decode(t, doc, &call{into: into, how: how}, m, true)
			return
		}
		want, werr := sereal.DecompressDocument(nil, clone(doc))
		g := guard(doc)
		var d []byte
		switch dst {
		case 1:
			d = make([]byte, 0, len(want)+10)
		case 2:
			d = make([]byte, len(want)*2+10)
		case 3:
			d = make([]byte, len(doc))
		case 4:
			d = make([]byte, 3)
		}
		if how == 3 { // damaged
			at := len(doc) - 1 - n%7
			if at >= 0 && at < len(doc) {
				g.doc[at] ^= 0x11
				g.was = clone(g.all)
				want, werr = sereal.DecompressDocument(nil, clone(g.doc))
			}
		}
		got, err := sereal.DecompressDocument(d, g.doc)
		if e := g.changed(); e != nil {
			t.Failf("DecompressDocument of %s: the document: %v", hexdump(doc), e)
			return
		}
		if !sameError(err, werr) {
			t.Failf("DecompressDocument of %s: %v and %v", hexdump(doc), err, werr)
			return
		}
		if err != nil {
			t.Count("errors")
			return
		}
		t.Count("decompressed")
		if e := within([]span{{addr(got), addr(got) + uintptr(cap(got)), 's', "result"}}, g.all); e != nil {
			t.Failf("DecompressDocument of %s: %v", hexdump(doc), e)
		}
		g.scribble()
		if !bytes.Equal(got, want) {
			t.Failf("DecompressDocument of %s changed with the document", hexdump(doc))
		}
		g.scribble()
		again, err := sereal.DecompressDocument(nil, g.doc)
		for i := range got[:cap(got)] {
			got[:cap(got)][i] ^= 0x5a
		}
		if err != nil || !bytes.Equal(again, want) {
			t.Failf("DecompressDocument of %s: second result changed with the first: %v", hexdump(doc), err)
		}
	}})

	// encoding
	fewSizes := []int{0, 1, 15, 16, 31, 32, 33, 127, 128, 1000, 1100}
	manners := append([]config{}, coreConfigs...)
	for _, k := range allConfigs {
		if k.comp != 0 && k.threshold != 6 && k.level >= 0 && k.level < 9 && (thorough || k.expected != 1 && !k.nodedup && !k.perl) {
			manners = append(manners, k)
		}
	}
	if thorough {
		fewSizes = append(fewSizes, sizes...)
	}
	hg := heapGrammar{tokens: 4 + more, maxKids: 2, slices: true, maps: true, boxes: true, pslices: true, pmaps: true, perl: true}
	ks := []config{{version: 1}, {version: 3, perl: true}, {version: 3, comp: gen.Zlib, level: 1}}
	r = append(r, Space{Name: "encoded graphs", What: fmt.Sprintf("all graphs of at most %d values with pointers, byte slices with room behind them, hooks and Perl types, by %d encoders", hg.tokens, len(ks)), Prog: func(c *Ctx, t *T) {
		hg := hg
		hg.leaves = []interface{}{"key", slack("bytes"), slackHook{slack("hook")}, 7}
		v := hg.value(c)
		k := oneOf(c, ks)
		c.Ready()
		p13encode(t, k, nil, v)
	}})
	r = append(r, Space{Name: "encoded bytes", What: "byte slices and strings of many sizes with room behind them, in all kinds of places, in header and body, by all encoders", Prog: func(c *Ctx, t *T) {
		n := oneOf(c, fewSizes)
		k := oneOf(c, manners)
		place := c.Choose(12)
		c.Ready()
		s := filled(n)
		b := slack(s)
		arr := [3][]byte{slack("a"), b, b}
		v := []interface{}{
			b, s, []interface{}{b, b, s}, map[string][]byte{s: b}, struct{ A, B []byte }{b, slack("xyz")}, &arr, slackHook{b}, []slackHook{{b}, {b}},
			&sereal.PerlFreeze{Class: s, Data: b}, sereal.PerlRegexp{Pattern: b, Modifiers: slack("msx")}, sereal.PerlObject{Class: s, Reference: &[]interface{}{b}}, [][]byte{b, slack("q")},
		}[place]
		p13encode(t, k, nil, v)
		v2 := []interface{}{s, slack(s)}
		p13encode(t, k, []interface{}{slack("header"), s}, v2)
	}})
	// one encoder's results
	calls := encoderCalls()
	for i := 0; i < len(calls); i++ {
		if calls[i].set != nil || calls[i].name == "cycle without pointers" {
			calls = append(calls[:i:i], calls[i+1:]...)
			i--
		}
	}
	r = append(r, Space{Name: "one encoder", What: fmt.Sprintf("all sequences of 3 out of %d calls on one encoder, with every result overwritten up to its capacity before the next", len(calls)), Prog: func(c *Ctx, t *T) {
		k := oneOf(c, []config{{version: 1}, {version: 3, perl: true, expected: 4096}, {version: 1, comp: gen.Snappy}, {version: 2, comp: gen.SnappyIncr}, {version: 3, comp: gen.Zlib}})
		xs := []*call{oneOf(c, calls), oneOf(c, calls), oneOf(c, calls)}
		c.Ready()
		e := k.encoder()
		for _, x := range xs {
			got, err := x.encode(e)
			want, _ := x.encode(k.encoder())
			if !bytes.Equal(got, want) && err == nil {
				t.Failf("%v: %s, after results of the encoder were overwritten: %s instead of %s", k, x.name, hexdump(got), hexdump(want))
				return
			}
			if err == nil {
				for i := range got[:cap(got)] {
					got[:cap(got)][i] ^= 0x5a
				}
			}
		}
		t.Count("done")
	}})

	// mergers
	list := append(mergeable(), gen.Doc(3, gen.Zlib, nil, cat([]byte{0x42}, gen.Short("key"), gen.Short("val"))), gen.Doc(2, gen.SnappyIncr, nil, cat([]byte{0x51}, gen.Short("key"), gen.Short("val"))), gen.Doc(2, gen.Raw, []byte{7}, cat([]byte{0x42}, gen.Short("key"), []byte{0x2f, 2})), rawDoc(3, []byte{0x42, 0x61, 'x', 0x3e}))
	r = append(r, Space{Name: "mergers", What: fmt.Sprintf("two mergers in turn, each given up to 2 of %d documents, which are overwritten afterwards, and the first result overwritten too", len(list)), Prog: func(c *Ctx, t *T) {
		var ds [][]byte
		for n := 1 + c.Choose(2); n > 0; n-- {
			ds = append(ds, oneOf(c, list))
		}
		i := c.Choose(16)
		comp := oneOf(c, []config{{version: 3}, {version: 3, comp: gen.SnappyIncr}, {version: 3, comp: gen.Zlib}})
		c.Ready()
		merge := func() *sereal.Merger {
			m := newMerger(i)
			if comp.comp == gen.SnappyIncr || i&8 == 0 {
				m.Compression = comp.encoder().Compression
			}
			return m
		}
		a, b := merge(), merge()
		for _, d := range ds {
			b.Append(clone(d))
		}
		want, werr := b.Finish()
		copied := clone(want)
		for _, d := range ds {
			g := guard(d)
			a.Append(g.doc)
			if e := g.changed(); e != nil {
				t.Failf("Merger %s: Append of %s: the document: %v", mergerName(i), hexdump(d), e)
				return
			}
			g.scribble()
		}
		got, err := a.Finish()
		if !sameError(err, werr) || !bytes.Equal(got, copied) || !bytes.Equal(want, copied) {
			t.Failf("Merger %s: documents overwritten afterwards: %v %s instead of %v %s", mergerName(i), err, hexdump(got), werr, hexdump(copied))
			return
		}
		for i := range got[:cap(got)] {
			got[:cap(got)][i] ^= 0x5a
		}
		if !bytes.Equal(want, copied) {
			t.Failf("Merger %s: the result changed with that of another merger", mergerName(i))
			return
		}
		m := merge()
		for _, d := range ds {
			m.Append(clone(d))
		}
		again, _ := m.Finish()
		if !bytes.Equal(again, copied) || !bytes.Equal(want, copied) {
			t.Failf("Merger %s: a later result changed with an earlier one", mergerName(i))
		}
		t.Count("merged")
	}})

	// results of one decoder, of different documents
	dec := decoderCalls()
	r = append(r, Space{Name: "one decoder", What: fmt.Sprintf("all pairs of %d calls on one decoder: the results share no memory, and the second is unaffected when the first and its document are overwritten", len(dec)), Prog: func(c *Ctx, t *T) {
		m := oneOf(c, modes)
		a, b := oneOf(c, dec), oneOf(c, dec)
		c.Ready()
		if a.mode != nil || a.regist != "" || b.mode != nil || b.regist != "" {
			return
		}
		d := newDecoder(m)
		g, h := guard(a.doc), guard(b.doc)
		x, y := *a, *b
		x.doc, y.doc = g.doc, h.doc
		first, err := x.decode(d)
		second, err2 := y.decode(d)
		if err != nil || err2 != nil {
			t.Count("errors")
			return
		}
		if e := apart(memory(first), memory(second)); e != nil {
			t.Failf("%s, %s: %v", a.name, b.name, e)
			return
		}
		want, _ := b.decode(newDecoder(m))
		scribble(reflect.ValueOf(first), map[ptrID]bool{})
		g.scribble()
		h.scribble()
		if e := deepSame(want, second); e != nil {
			t.Failf("%s, %s: %v", a.name, b.name, e)
			return
		}
		h.scribble()
		third, _ := y.decode(d)
		if e := deepSame(want, third); e != nil {
			t.Failf("%s, overwritten, then %s: %v", a.name, b.name, e)
		}
		t.Count("decoded")
	}})
	return r
}
