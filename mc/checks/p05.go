package checks

import (
	"bytes"
	"fmt"
	"reflect"
	"runtime/metrics"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P05", Spaces: p05, Assumptions: []string{
		"The memory that a call may allocate is bounded by 1 MB plus 2000 times the length of the document (decompressed); it is measured by the Go runtime.",
		"An execution that takes more than 90 s (on inputs of up to a few hundred kilobytes) counts as a hang.",
	}})
}

var allocSample = []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}

func allocated() uint64 {
	metrics.Read(allocSample)
	return allocSample[0].Value.Uint64()
}

func wellTyped(typ reflect.Type) func() interface{} {
	return func() interface{} { return reflect.New(typ).Interface() }
}

// everyCall makes all the calls that take a document, and fails if one panics.
// each is called in between, with what has been done.
func everyCall(t *T, doc []byte, each func(what func() string)) {
	fail := func(what func() string, err error) {
		if isPanic(err) {
			t.Failf("%s: document %s: %v", what(), hexdump(doc), err)
		}
	}
	for _, m := range modes {
		m := m
		what := func() string { return "Unmarshal and UnmarshalHeader to interface{}, " + modeName(m) }
		var h, v interface{}
		fail(what, safe(func() error { return newDecoder(m).Unmarshal(doc, &v) }))
		fail(what, safe(func() error { return newDecoder(m).UnmarshalHeader(doc, &h) }))
		each(what)
	}
	for i, typ := range destinations {
		m := modes[i%3]
		if i%3 == 2 {
			m = modes[1]
		}
		typ := typ
		what := func() string { return fmt.Sprintf("UnmarshalHeaderBody to %v, %s", typ, modeName(m)) }
		fail(what, safe(func() error {
			return newDecoder(m).UnmarshalHeaderBody(doc, reflect.New(typ).Interface(), reflect.New(typ).Interface())
		}))
		each(what)
	}
	for i := 0; i < 8; i++ {
		i := i
		what := func() string { return "Merger: " + mergerName(i) }
		fail(what, safe(func() error {
			mg := newMerger(i)
			_, err := mg.Append(doc)
			if err == nil {
				mg.Append(doc)
			}
			_, err = mg.Finish()
			return err
		}))
		each(what)
	}
	what := func() string { return "DecompressDocument and LooksLikeSereal" }
	for _, dst := range [][]byte{nil, make([]byte, len(doc)), make([]byte, 2*len(doc)+100)} {
		fail(what, safe(func() error { _, err := sereal.DecompressDocument(dst, doc); return err }))
	}
	fail(what, safe(func() error { sereal.LooksLikeSereal(doc); return nil }))
	each(what)
}

// newMerger returns one of the 8 mergers (and newMerger(i+8) ones of version 2).
func newMerger(i int) *sereal.Merger {
	mg := sereal.NewMergerV3()
	if i&8 != 0 {
		mg = sereal.NewMergerV2()
	}
	if i&1 != 0 {
		mg.TopLevelElement = sereal.TopLevelArray
	}
	mg.KeepFlat = i&2 != 0
	mg.DedupeStrings = i&4 != 0
	return mg
}

func mergerName(i int) string {
	return fmt.Sprintf("V2=%v TopLevelArray=%v KeepFlat=%v DedupeStrings=%v", i&8 != 0, i&1 != 0, i&2 != 0, i&4 != 0)
}

func p05doc(t *T, doc []byte) {
	n := 0
	before := allocated()
	everyCall(t, doc, func(func() string) { n++ })
	if used := allocated() - before; used > uint64(n)*(1<<20+2000*uint64(len(doc))) {
		t.Failf("document %s: %d calls allocated %d bytes", hexdump(doc), n, used)
	}
}

// p05big measures each call of its own; size is what may be accounted for.
func p05big(t *T, doc []byte, size int) {
	before := allocated()
	everyCall(t, doc, func(what func() string) {
		if used := allocated() - before; used > 3<<20+6000*uint64(size) {
			t.Failf("%s: document %s: allocated %d bytes", what(), hexdump(doc), used)
		}
		before = allocated()
	})
}

func magnitudes() (r []uint64) {
	for s := uint(0); s < 64; s++ {
		r = append(r, 1<<s)
		if s > 1 {
			r = append(r, 1<<s-1)
		}
	}
	return append(r, 1<<64-1, 1<<63-5, 1<<62-1, 6<<60)
}

func p05(thorough bool) []Space {
	var r []Space
	for _, bs := range byteSpaces05(thorough) {
		bs := bs
		r = append(r, Space{Name: bs.name, What: bs.what, Prog: func(c *Ctx, t *T) {
			body := bs.body(c)
			c.Ready()
			doc := rawDoc(3, body)
			t.Sample(func() string { return hexdump(doc) })
			p05doc(t, doc)
		}})
	}
	small := []byteSpace{wordsOver("tags", fewTagBytes, 3), damaged(seeds())}
	if thorough {
		small = []byteSpace{wordsOver("tags", fewTagBytes, 4), wordsOver("references", refBytes, 5), damaged(seeds()), wild(withTokens(anyGrammar, 3))}
	}
	for _, bs := range small {
		bs := bs
		r = append(r, Space{Name: "v1 " + bs.name, What: bs.what + ", version 1", Prog: func(c *Ctx, t *T) {
			body := bs.body(c)
			c.Ready()
			p05doc(t, rawDoc(1, body))
		}}, Space{Name: "header " + bs.name, What: bs.what + ", as user data in the header", Prog: func(c *Ctx, t *T) {
			suffix := append([]byte{1}, bs.body(c)...)
			c.Ready()
			p05doc(t, gen.Doc(3, gen.Raw, suffix, []byte{7, 0x51, 7, 7, 7}))
		}})
	}
	suffixes := 2
	if thorough {
		suffixes = 3
	}
	bodies := [][]byte{seeds()[2], seeds()[12], cat([]byte{0x2b, 2}, gen.Binary(filled(300)), gen.Binary(filled(300)))}
	r = append(r, Space{Name: "compressed", What: "compressed documents of all types, cut off anywhere or with any byte changed to any other", Prog: func(c *Ctx, t *T) {
		version := 1 + c.Choose(4)
		typ := oneOf(c, append(gen.Types(version)[1:], gen.Zstd))
		doc := damagedDoc(c, version, typ, bodies, 0)
		c.Ready()
		p05big(t, doc, 1000*len(doc)+10000)
	}}, Space{Name: "headers", What: "all headers with a suffix length and a suffix of few bytes", Prog: func(c *Ctx, t *T) {
		doc := gen.Header(1+c.Choose(4), 0, nil)[:5]
		n := c.Choose(4)
		for i := 0; i < n; i++ {
			doc = append(doc, oneOf(c, []byte{0, 1, 2, 3, 0x7f, 0x80, 0x81, 0xff}))
		}
		if c.Bool() {
			doc = gen.Varint(doc, oneOf(c, magnitudes()))
		}
		n = c.Choose(suffixes)
		for i := 0; i < n; i++ {
			doc = append(doc, oneOf(c, []byte{1, 7, 0x51, 0x80, 0xff}))
		}
		c.Ready()
		p05doc(t, doc)
	}})

	// openers of containers and strings, with a claim
	claim := func(tag ...byte) func(n uint64) []byte {
		return func(n uint64) []byte { return gen.Varint(clone(tag), n) }
	}
	claims := []func(n uint64) []byte{
		claim(0x2b), claim(0x2a), claim(0x26), claim(0x27), claim(0x28, 0x2b), claim(0x28, 0x2a), claim(0x2c, 0x26), claim(0x2c, 0x27), claim(0x31, 0x26), claim(0x31, 0x60, 0x26),
		claim(0x32, 0x61, 'a', 0x28, 0x2b), claim(0x32, 0x61, 'a', 0x28, 0x2b, 1, 0x26), claim(0x2d), claim(0x33), claim(0x2e), claim(0x2f), claim(0x29), claim(0x20), claim(0x21), claim(0x2a, 1, 0x26), claim(0xab), claim(0xaa), claim(0xa9), claim(0xaf),
		claim(0x51, 0x61, 'a', 0x2b), claim(0x51, 0x61, 'C', 0x2b), claim(0x51, 0x61, 'D', 0x2a), claim(0x51, 0x61, 'H', 0x2b), claim(0x51, 0x61, 'G', 0x26), claim(0x51, 0x61, 'E', 0x2a), claim(0x42, 7, 0x2b), claim(0x41, 0x2a), claim(0x30, 0x2b), claim(0x34), claim(0x3d),
	}
	wraps := [][]byte{nil, {0x41}, {0x51, 0x61, 'a'}, {0x28}, {0x2b, 1}, {0x2c, 0x61, 'X'}, {0xc1}, {0xa8}, {0x2a, 2, 0x61, 'C', 0x2b, 0x81, 0}}
	tails := []int{0, 1, 3, 40, 5000}
	r = append(r, Space{Name: "claims", What: "all tags with lengths, counts and offsets of all magnitudes up to 2^64, with more or fewer bytes behind them, nested in others, in versions 1 and 3", Prog: func(c *Ctx, t *T) {
		w := oneOf(c, wraps)
		f := oneOf(c, claims)
		n := oneOf(c, magnitudes())
		tail := bytes.Repeat([]byte{oneOf(c, []byte{7, 0x60})}, oneOf(c, tails))
		version := oneOf(c, []int{1, 3})
		c.Ready()
		body := cat(w, f(n), tail)
		t.Sample(func() string { return hexdump(body) })
		p05big(t, rawDoc(version, body), len(body))
	}})
	// compressed documents that claim sizes
	r = append(r, Space{Name: "compressed claims", What: "compressed documents that claim decompressed or compressed lengths of all magnitudes", Prog: func(c *Ctx, t *T) {
		kind := c.Choose(4)
		n := oneOf(c, magnitudes())
		size := oneOf(c, []int{0, 1, 100, 3000})
		z := gen.Compress(gen.Zlib, bytes.Repeat([]byte{7}, size))
		sn := gen.Compress(gen.Snappy, append(gen.Varint([]byte{0x2b}, uint64(size)), bytes.Repeat([]byte{7}, size)...))
		_, s1 := uvarint(z)
		_, s2 := uvarint(z[s1:])
		_, s3 := uvarint(sn)
		c.Ready()
		var doc []byte
		switch kind {
		case 0: // zlib: decompressed length
			doc = cat(gen.Header(3, gen.Zlib, nil), gen.Varint(nil, n), z[s1:])
		case 1: // zlib: compressed length
			doc = cat(gen.Header(3, gen.Zlib, nil), z[:s1], gen.Varint(nil, n), z[s1+s2:])
		case 2: // snappy: decompressed length
			doc = cat(gen.Header(1, gen.Snappy, nil), gen.Varint(nil, n), sn[s3:])
		case 3: // incremental
			doc = cat(gen.Header(2, gen.SnappyIncr, nil), gen.Varint(nil, n), sn)
		}
		p05big(t, doc, len(doc)*1040+size)
	}})
	// deep nesting
	opens := [][]byte{{0x41}, {0x2b, 1}, {0x51, 0x61, 'a'}, {0x2a, 1, 0x61, 'A'}, {0x28}, {0xa8}, {0x30}, {0x2c, 0x61, 'X'}, {0x28, 0x2b, 1}, {0x51, 0x61, 'C', 0x41}, {0x51, 0x61, 'E'}, {0x51, 0x61, 'D', 0x51, 0x61, 'k'}, {0x3f}, {0x42, 7}, {0x52, 0x61, 'F', 7, 0x61, 'F'}, {0xc1}, {0x41, 0x28}, {0x2d, 1}, {0x4f}, {0x28, 0x30}, {0x2b, 0xff, 0xff, 1}, {0x2b, 0x90, 0x4e}, {0x2a, 0x88, 0x27, 0x60}, {0x51, 0x61, 'C', 0x2b, 0x90, 0x4e}}
	deep := []int{1, 2, 10, 100, 1000, 10000, 30000}
	if thorough {
		deep = append(deep, 300000, 3000000)
	}
	r = append(r, Space{Name: "nesting", What: fmt.Sprintf("sequences of the same opening tags, up to %d of them, with or without an end", deep[len(deep)-1]), Prog: func(c *Ctx, t *T) {
		o := oneOf(c, opens)
		n := oneOf(c, deep)
		end := oneOf(c, [][]byte{nil, {7}, {0x25}, {0x29, 1}, {0x2b, 0}, {0x2f, 1}, {0x2e, 1}})
		version := oneOf(c, []int{1, 3})
		c.Ready()
		body := append(bytes.Repeat(o, n), end...)
		p05big(t, rawDoc(version, body), len(body))
	}}, Space{Name: "flat", What: "arrays of many items that each refer to, alias or copy an earlier one", Prog: func(c *Ctx, t *T) {
		first := oneOf(c, [][]byte{{7}, {0x87}, {0xe1, 'a'}, {0x61, 'a'}, {0xa8, 0x2b, 1, 7}, {0x28, 0xab, 0}, {0xd1, 0x61, 'a', 7}, {0xab, 1, 0x29, 4}, {0xb1, 0x61, 'p', 0x60}})
		items := oneOf(c, [][]byte{{0x29, 4}, {0x2e, 4}, {0x2f, 4}, {0x29, 5}, {0xa9, 4}, {0x28, 0x29, 4}, {0x2c, 0x2f, 4, 7}, {0x2d, 4, 7}, {0x30, 0x29, 4}, {0x51, 0x2f, 4, 0x29, 4}})
		n := oneOf(c, []int{1, 10, 100, 1000, 20000})
		c.Ready()
		body := cat(gen.Varint([]byte{0x2b}, uint64(n+1)))
		for len(body) < 3 {
			body = append(body, 0x3f)
		}
		body = cat(body, first, bytes.Repeat(items, n))
		p05big(t, rawDoc(3, body), len(body))
	}})
	return append(r, p05zstd(thorough)...)
}

var undamaged = map[string][]byte{}

// damagedDoc is a compressed document that is cut off or has a byte changed, at
// or behind an offset.
func damagedDoc(c *Ctx, version, typ int, bodies [][]byte, from int) []byte {
	body := oneOf(c, bodies)
	key := fmt.Sprint(version, typ, string(body))
	if undamaged[key] == nil {
		if typ == gen.Zstd && !gen.HasZstd() {
			undamaged[key] = append(gen.Header(version, typ, nil), 0x05, 0x28, 0xb5, 0x2f, 0xfd, 0, 0)
		} else {
			undamaged[key] = gen.Doc(version, typ, nil, body)
		}
	}
	doc := clone(undamaged[key])
	if c.Bool() {
		return doc[:from+c.Choose(len(doc)+1-from)]
	}
	i := from + c.Choose(len(doc)-from)
	v := c.Choose(256)
	c.Ready()
	doc[i] = byte(v)
	return doc
}

// zstdPieces are parts of the body of a document compressed with zstd: frames of
// different contents, with and without its size, frames to skip, and pieces.
func zstdPieces() [][]byte {
	b := cat([]byte{0x42, 7}, gen.Short("x"))
	f := gen.ZstdFrame(b, 3)
	return [][]byte{
		f, f[:len(f)-1], gen.ZstdFrame(nil, 3), gen.ZstdFrame(bytes.Repeat([]byte{7}, 3000), 3), gen.ZstdStream(b, 3, 2), gen.ZstdStream(bytes.Repeat([]byte{0x41}, 3000000), 3, 1<<30),
		{0x50, 0x2a, 0x4d, 0x18, 0, 0, 0, 0}, {0x5f, 0x2a, 0x4d, 0x18, 3, 0, 0, 0, 1, 2, 3}, {0x50, 0x2a, 0x4d, 0x18, 0xff, 0xff, 0xff, 0xff}, {0}, {0x28, 0xb5, 0x2f, 0xfd}, {0x27, 0xb5, 0x2f, 0xfd, 1, 0, 0, 0, 0},
	}
}

func p05zstd(thorough bool) []Space {
	bodies := [][]byte{seeds()[2], seeds()[12], cat([]byte{0x2b, 2}, gen.Binary(filled(300)), gen.Binary(filled(300)))}
	depth := 2
	if thorough {
		depth = 4
	}
	var pieces [][]byte
	return zstdBuild([]Space{
		{Name: "zstd compressed", What: "documents compressed with zstd, cut off anywhere or with any byte changed to any other", Prog: func(c *Ctx, t *T) {
			doc := damagedDoc(c, 4, gen.Zstd, bodies, 0)
			c.Ready()
			p05big(t, doc, 1000*len(doc)+10000)
		}},
		{Name: "zstd pieces", What: fmt.Sprintf("sequences of up to %d frames and pieces of frames as the body", depth), Prog: func(c *Ctx, t *T) {
			if pieces == nil {
				pieces = zstdPieces()
			}
			var z []byte
			size := 0
			for i := c.Choose(depth + 1); i > 0; i-- {
				k := c.Choose(len(pieces))
				z = append(z, pieces[k]...)
				if k == 5 {
					size += 3000000
				}
			}
			extra := c.Choose(3)
			c.Ready()
			if extra == 2 {
				z = append(z, make([]byte, 20)...)
			}
			doc := append(gen.Header(4, gen.Zstd, nil), gen.ZstdBody(z)...)
			if extra == 1 {
				doc = append(doc, 0)
			}
			p05big(t, doc, 1000*len(doc)+size)
		}},
		{Name: "zstd claims", What: "frames that claim contents, windows, dictionaries and blocks of all sizes, in all forms of the frame header, in bodies that claim all lengths", Prog: func(c *Ctx, t *T) {
			d := c.Choose(8)<<5 | oneOf(c, []int{0, 4, 3, 8})
			n := oneOf(c, []uint64{0, 4, 1 << 20, 1<<31 - 1, 1 << 40, 1<<63 - 1, 1<<64 - 2, 1<<64 - 1})
			window := oneOf(c, []byte{0, 0x80, 0xff})
			block := oneOf(c, []int{1, 1 | 4<<3, 3 | 128<<10<<3, 5 | 4<<3, 3 | 0x1fffff<<3})
			tail := oneOf(c, []int{4, 40})
			c.Ready()
			f := []byte{0x28, 0xb5, 0x2f, 0xfd, byte(d)}
			if d>>5&1 == 0 {
				f = append(f, window)
			}
			f = append(f, make([]byte, []int{0, 1, 2, 4}[d&3])...)
			w := []int{0, 2, 4, 8}[d>>6]
			if w == 0 && d>>5&1 == 1 {
				w = 1
			}
			for i := 0; i < w; i++ {
				f = append(f, byte(n>>(8*i)))
			}
			f = append(f, byte(block), byte(block>>8), byte(block>>16))
			f = append(f, bytes.Repeat([]byte{7}, tail)...)
			p05big(t, append(gen.Header(4, gen.Zstd, nil), gen.ZstdBody(f)...), 300000)
		}},
		{Name: "zstd lengths", What: "bodies that claim compressed lengths of all magnitudes", Prog: func(c *Ctx, t *T) {
			z := gen.ZstdFrame(oneOf(c, bodies), 3)
			n := oneOf(c, magnitudes())
			c.Ready()
			p05big(t, cat(gen.Header(4, gen.Zstd, nil), gen.Varint(nil, n), z), 10000)
		}},
	})
}

func uvarint(b []byte) (v uint64, n int) {
	for s := uint(0); n < len(b); s += 7 {
		v |= uint64(b[n]&0x7f) << s
		n++
		if b[n-1] < 0x80 {
			break
		}
	}
	return
}

func byteSpaces05(thorough bool) []byteSpace {
	if thorough {
		return []byteSpace{
			wordsOver("2 bytes", allBytes(), 2),
			wordsOver("tags", tagBytes, 4),
			wordsOver("few tags", fewTagBytes, 5),
			wordsOver("references", refBytes, 6),
			damaged(seeds()),
			twice(seeds(), fewTagBytes),
			cut(withTokens(anyGrammar, 4)),
			wild(withTokens(anyGrammar, 3)),
		}
	}
	return []byteSpace{
		wordsOver("2 bytes", allBytes(), 2),
		wordsOver("tags", tagBytes, 3),
		wordsOver("few tags", fewTagBytes, 4),
		wordsOver("references", refBytes, 4),
		damaged(seeds()),
		cut(withTokens(anyGrammar, 3)),
		wild(withTokens(anyGrammar, 3)),
	}
}
