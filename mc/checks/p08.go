package checks

import (
	"bytes"
	"compress/zlib"
	"fmt"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P08", Spaces: p08, Assumptions: []string{
		"The reference decompresses with golang/snappy and compress/zlib, which the repository uses as well; both are trusted.",
		"zstd is explored in the build with the tag clibs, where the reference uses the same C library; bodies of more than one frame are not judged.",
	}})
}

// noise is a string that does not compress.
func noise(n int) string {
	b := make([]byte, n)
	x := uint32(2463534242)
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x >> 7)
	}
	return string(b)
}

// allowed tells whether the version has the compressor, and its document type.
func (k config) allowed() bool {
	switch k.comp {
	case gen.Snappy:
		return k.docVersion() == 1
	case gen.Zstd:
		return false // no encoder writes version 4
	case gen.Zlib:
		return k.docVersion() >= 3 && k.level >= -1 && k.level <= 9
	}
	return true
}

// p08value encodes with and without compression.
func p08value(t *T, k config, h, v interface{}) {
	bare := k
	bare.comp = 0
	plain, err := bare.marshal(nil, h, v)
	if err != nil {
		t.Failf("%v: %v", bare, err)
		return
	}
	ph, err := ref.ParseHeader(plain)
	if err != nil {
		t.Failf("%v: %s: %v", bare, hexdump(plain), err)
		return
	}
	body := plain[ph.BodyAt:]
	doc, err := k.marshal(nil, h, v)
	p08against(t, k, plain, body, doc, err)
}

func p08against(t *T, k config, plain, body, doc []byte, err error) {
	bad := func(f string, a ...interface{}) {
		t.Failf("%v: body %s: %s", k, hexdump(body), fmt.Sprintf(f, a...))
	}
	typ := 0
	if k.comp != 0 && (k.threshold == 0 || len(body) >= k.threshold) {
		typ = k.comp
	}
	t.Count(fmt.Sprintf("type %d", typ))
	if typ != 0 && !k.allowed() {
		t.Count("not allowed")
		if err == nil || isPanic(err) || doc != nil {
			bad("such compression is not allowed, but returns %s, %v", hexdump(doc), err)
		}
		return
	}
	if err != nil {
		bad("%v", err)
		return
	}
	at := len(plain) - len(body)
	header := clone(plain[:at])
	header[4] |= byte(typ << 4)
	if len(doc) < at || !sameBytes(doc[:at], header) {
		bad("document %s begins with another header than %s", hexdump(doc), hexdump(header))
		return
	}
	d, err := ref.Parse(doc)
	if err != nil || !sameBytes(d.Raw, body) {
		bad("document %s: %v, %s", hexdump(doc), err, hexdump(d.Raw))
		return
	}
	t.Sample(func() string { return k.String() + " " + hexdump(doc) })
	p08open(t, doc, plain, d)
}

// p08open decodes a document that is plain when it is decompressed.
func p08open(t *T, doc, plain []byte, d *ref.Doc) {
	for _, m := range modes[:2] {
		conform(t, doc, d.Body, m, newDecoder(m))
	}
	for _, dst := range [][]byte{nil, {}, make([]byte, len(doc)), make([]byte, len(doc)+len(plain)+100)} {
		p08decompress(t, dst, doc, plain)
	}
}

// p08decompress decompresses into a buffer.
func p08decompress(t *T, dst, doc, plain []byte) {
	was := clone(doc)
	what := fmt.Sprintf("DecompressDocument of %s into a buffer of %d of %d bytes", hexdump(doc), len(dst), cap(dst))
	var r []byte
	err := safe(func() (err error) { r, err = sereal.DecompressDocument(dst, doc); return })
	if err != nil || !sameBytes(r, plain) {
		t.Failf("%s: %s, %v instead of %s", what, hexdump(r), err, hexdump(plain))
	}
	if !sameBytes(doc, was) {
		t.Failf("%s changes the document", what)
	}
	for i := range r {
		r[i] ^= 0xff
	}
	if !sameBytes(doc, was) {
		t.Failf("%s: the result shares memory with the document", what)
	}
}

// p08doc is for documents of other makers.
func p08doc(t *T, version, typ int, suffix, compressed, body []byte) {
	plain := gen.Doc(version, gen.Raw, suffix, body)
	doc := append(gen.Header(version, typ, suffix), compressed...)
	d, err := ref.Parse(doc)
	if err != nil || !sameBytes(d.Raw, body) {
		t.Failf("harness: %s: %v", hexdump(doc), err)
		return
	}
	t.Sample(func() string { return hexdump(doc) })
	p08open(t, doc, plain, d)
}

// zlibVariants are different streams for the same bytes.
func zlibVariants(body []byte) (r [][]byte) {
	for level := zlib.HuffmanOnly; level <= zlib.BestCompression; level++ {
		for _, chunk := range []int{0, 1, 7, 1000} {
			var z bytes.Buffer
			w, err := zlib.NewWriterLevel(&z, level)
			if err != nil {
				panic(err)
			}
			if chunk == 0 {
				w.Write(body)
			} else if len(body)/chunk > 5000 {
				continue
			} else {
				for i := 0; i < len(body); i += chunk {
					w.Write(body[i:min(i+chunk, len(body))])
					w.Flush()
				}
			}
			w.Close()
			r = append(r, z.Bytes())
		}
	}
	return r
}

// overlong writes a varint with more bytes than it needs.
func overlong(v uint64, extra int) []byte {
	b := gen.Varint(nil, v)
	for ; extra > 0; extra-- {
		b[len(b)-1] |= 0x80
		b = append(b, 0)
	}
	return b
}

// snappyElements makes one of the streams that decompress to the body.
func snappyElements(c *Ctx, body []byte) []byte {
	out := gen.Varint(nil, uint64(len(body)))
	for at := 0; at < len(body); {
		type copyOf struct{ off, n int }
		var alts []copyOf
		for off := 1; off <= at; off++ {
			n := 0
			for at+n < len(body) && n < 64 && body[at+n] == body[at+n-off] {
				n++
			}
			if n >= 1 {
				alts = append(alts, copyOf{off, n})
				if n > 4 {
					alts = append(alts, copyOf{off, 4})
				}
			}
		}
		// literals up to the next byte, the next 3, or the end
		lits := []int{1}
		if len(body)-at > 3 {
			lits = append(lits, 3)
		}
		if len(body)-at > 1 {
			lits = append(lits, len(body)-at)
		}
		i := c.Choose(len(lits) + len(alts))
		if i < len(lits) {
			n := lits[i]
			switch {
			case n <= 60 && c.Choose(2) == 0:
				out = append(out, byte(n-1)<<2)
			case c.Bool():
				out = append(out, 61<<2, byte(n-1), byte((n-1)>>8))
			default:
				out = append(out, 63<<2, byte(n-1), byte((n-1)>>8), 0, 0)
			}
			out = append(out, body[at:at+n]...)
			at += n
			continue
		}
		a := alts[i-len(lits)]
		form := c.Choose(3)
		switch {
		case form == 0 && a.n >= 4 && a.n <= 11:
			out = append(out, byte(a.n-4)<<2|byte(a.off>>8)<<5|1, byte(a.off))
		case form == 1:
			out = append(out, byte(a.n-1)<<2|2, byte(a.off), byte(a.off>>8))
		default:
			out = append(out, byte(a.n-1)<<2|3, byte(a.off), byte(a.off>>8), 0, 0)
		}
		at += a.n
	}
	return out
}

func p08(thorough bool) []Space {
	var r []Space
	sizes := append(ints([2]int{0, 40}, [2]int{62, 66}, [2]int{125, 131}, [2]int{1010, 1030}), 4000, 16380, 16384, 32768, 65530, 65536, 65540, 70000, 131072, 200000)
	if thorough {
		sizes = append(ints([2]int{0, 300}, [2]int{1000, 1100}, [2]int{16370, 16390}, [2]int{65500, 65600}), 131071, 131072, 131080, 1000000, 5000000)
	}
	var configs []config
	for v := 1; v <= 3; v++ {
		for _, comp := range []int{gen.Snappy, gen.SnappyIncr, gen.Zlib} {
			configs = append(configs, config{version: v, comp: comp, level: 1})
		}
	}
	configs = append(configs, config{comp: gen.SnappyIncr}, config{comp: gen.Zlib})
	content := []func(n int) interface{}{
		func(n int) interface{} { return strings.Repeat("a", n) },
		func(n int) interface{} { return noise(n) },
		func(n int) interface{} { return []interface{}{[]byte(filled(n)), map[string]interface{}{"key": 1}} },
	}
	r = append(r, Space{Name: "thresholds", What: "bodies of every size up to a bound and around the sizes of blocks, that compress well or not at all, with all compressors and versions and thresholds around their size", Prog: func(c *Ctx, t *T) {
		n := oneOf(c, sizes)
		v := oneOf(c, content)(n)
		k := oneOf(c, configs)
		h := oneOf(c, []interface{}{nil, "user data", []string{"x", "x"}})
		doc, err := config{version: k.version}.marshal(nil, nil, v)
		hd, err2 := ref.ParseHeader(doc)
		if err != nil || err2 != nil {
			t.Failf("%v %v", err, err2)
			return
		}
		size := len(doc) - hd.BodyAt
		k.threshold = oneOf(c, []int{0, size, size + 1, size - 1, 1, -1, 1024, 1 << 40})
		c.Ready()
		p08value(t, k, h, v)
	}})
	r = append(r, Space{Name: "levels", What: "all zlib levels from -4 to 12, all versions, bodies of several sizes, thresholds", Prog: func(c *Ctx, t *T) {
		k := config{version: c.Choose(4), comp: gen.Zlib, level: c.Choose(17) - 4}
		v := oneOf(c, content)(oneOf(c, []int{0, 10, 300, 5000, 100000}))
		k.threshold = oneOf(c, []int{0, 1, 200, 1 << 30})
		c.Ready()
		p08value(t, k, nil, v)
	}})
	runs := []int{300000, 1000000, 2000000, 4200000}
	if thorough {
		runs = append(runs, 20000000, 100000000)
	}
	r = append(r, Space{Name: "runs", What: "bodies of millions of equal or recurring bytes, which compress to a thousandth and less, with all compressors and zlib levels", Prog: func(c *Ctx, t *T) {
		n := oneOf(c, runs)
		s := oneOf(c, []string{"a", "\x00", "ab", strings.Repeat("x", 257) + "y"})
		k := oneOf(c, []config{{version: 1, comp: gen.Snappy}, {version: 2, comp: gen.SnappyIncr}, {version: 3, comp: gen.Zlib}, {version: 3, comp: gen.Zlib, level: 1}, {version: 3, comp: gen.Zlib, level: 9}, {version: 3, comp: gen.Zlib, level: -2}})
		c.Ready()
		p08value(t, k, nil, strings.Repeat(s, n/len(s)))
	}})
	g := valueGrammar{tokens: 4, maxKids: 3, leaves: []interface{}{nil, 7, "key", []byte("key")}, keys: []string{"key", "b"}}
	if thorough {
		g.tokens = 5
	}
	r = append(r, Space{Name: "values", What: fmt.Sprintf("all trees of at most %d values with all compressors", g.tokens), Prog: func(c *Ctx, t *T) {
		v := g.value(c)
		k := oneOf(c, configs)
		c.Ready()
		p08value(t, k, nil, v)
	}})
	hg := heapGrammar{tokens: 4, maxKids: 2, leaves: []interface{}{"Cls"}, slices: true, pmaps: true, boxes: true, perl: true}
	r = append(r, Space{Name: "references", What: fmt.Sprintf("all graphs of at most %d values with pointers and Perl types, with all compressors", hg.tokens), Prog: func(c *Ctx, t *T) {
		v := hg.value(c)
		k := oneOf(c, configs)
		k.perl = c.Bool()
		c.Ready()
		p08refs(t, k, v)
	}})
	depth := 3
	if thorough {
		depth = 4
	}
	type call struct {
		k config
		v interface{}
	}
	var calls []call
	for _, k := range []config{{version: 3, comp: gen.Zlib}, {version: 3, comp: gen.Zlib, level: 1}, {version: 3, comp: gen.Zlib, level: 9}, {version: 2, comp: gen.Zlib, level: 9}, {version: 3, comp: gen.Zlib, level: 10}, {version: 3, comp: gen.SnappyIncr}, {version: 1, comp: gen.Snappy}} {
		for _, v := range []interface{}{7, strings.Repeat("ab", 500), noise(2000)} {
			calls = append(calls, call{k, v})
		}
	}
	r = append(r, Space{Name: "sequences", What: fmt.Sprintf("all sequences of %d encodings with different compressors, levels and sizes: compressors keep nothing", depth), Prog: func(c *Ctx, t *T) {
		var seq []call
		for i := 0; i < depth; i++ {
			seq = append(seq, oneOf(c, calls))
		}
		c.Ready()
		for _, x := range seq {
			p08value(t, x.k, nil, x.v)
		}
	}})

	// one encoder whose compressor is changed
	r = append(r, Space{Name: "changes", What: "all sequences of 3 settings of compressor and threshold on one encoder", Prog: func(c *Ctx, t *T) {
		version := 1 + c.Choose(3)
		v := oneOf(c, []interface{}{7, strings.Repeat("ab", 500)})
		var ks []config
		for i := 0; i < 3; i++ {
			k := oneOf(c, []config{{}, {comp: gen.SnappyIncr}, {comp: gen.Snappy}, {comp: gen.Zlib, level: 3}, {comp: gen.Zlib, level: 3, threshold: 1000}, {comp: gen.Zlib, level: 99}})
			k.version = version
			ks = append(ks, k)
		}
		c.Ready()
		plain, err := config{version: version}.marshal(nil, nil, v)
		if err != nil {
			t.Failf("%v", err)
			return
		}
		e := ks[0].encoder()
		for _, k := range ks {
			s := k.encoder()
			e.Compression, e.CompressionThreshold = s.Compression, s.CompressionThreshold
			doc, err := marshalWith(nil, e, nil, v)
			p08against(t, k, plain, plain[6:], doc, err)
		}
	}})

	// buffers for DecompressDocument
	bodies := [][]byte{{7}, gen.Binary(strings.Repeat("a", 300)), gen.Binary(noise(300)), seeds()[12], gen.Binary(strings.Repeat("x", 70000))}
	r = append(r, Space{Name: "buffers", What: "documents of all versions and types with header data, decompressed into buffers of every length and capacity around theirs", Prog: func(c *Ctx, t *T) {
		w := oneOf(c, wrappings())
		body := oneOf(c, bodies)
		doc, plain := w.doc(body), gen.Doc(w.version, gen.Raw, w.suffix, body)
		around := []int{0, 1, 5, 6, 7, 100000}
		for _, n := range []int{len(doc), len(plain), len(plain) - len(body), len(body)} {
			for d := -3; d <= 3; d++ {
				if n+d >= 0 {
					around = append(around, n+d)
				}
			}
		}
		n := oneOf(c, around)
		spare := oneOf(c, []int{0, 1, 500})
		c.Ready()
		p08decompress(t, make([]byte, n, n+spare), doc, plain)
	}})

	// other compressors
	more := [][]byte{{7}, gen.Binary("abcabcabcd"), seeds()[6], seeds()[12], gen.Binary(strings.Repeat("a", 300)), gen.Binary(noise(3000)), gen.Binary(strings.Repeat("abc", 40000))}
	var streams [][][]byte
	r = append(r, Space{Name: "zlib streams", What: "bodies compressed at all levels, stored, Huffman only, and flushed in between; lengths in longer varints; header data", Prog: func(c *Ctx, t *T) {
		if streams == nil {
			for _, b := range more {
				streams = append(streams, zlibVariants(b))
			}
		}
		i := c.Choose(len(more))
		z := oneOf(c, streams[i])
		version := 3 + c.Choose(2)
		x, y := c.Choose(3), c.Choose(3)
		s := oneOf(c, [][]byte{nil, {1, 7}, {0}})
		c.Ready()
		p08doc(t, version, gen.Zlib, s, cat(overlong(uint64(len(more[i])), x), overlong(uint64(len(z)), y), z), more[i])
	}})
	snappyBodies := [][]byte{{7}, {0x43, 1, 1, 1}, gen.Binary("aaaaa"), gen.Short("abab")}
	if thorough {
		snappyBodies = append(snappyBodies, gen.Binary("aaaaaaa"), gen.Short("ababab"), []byte{0x46, 1, 2, 1, 2, 1, 2})
	}
	r = append(r, Space{Name: "snappy streams", What: "all sequences of literals and copies of all forms that make up short bodies, in both forms of version 1 and the one of others", Prog: func(c *Ctx, t *T) {
		body := oneOf(c, snappyBodies)
		s := snappyElements(c, body)
		w := oneOf(c, []wrapping{{1, gen.Snappy, nil}, {1, gen.SnappyIncr, nil}, {2, gen.SnappyIncr, []byte{1, 7}}, {4, gen.SnappyIncr, nil}})
		extra := c.Choose(3)
		c.Ready()
		if w.typ == gen.SnappyIncr {
			s = append(overlong(uint64(len(s)), extra), s...)
		} else if extra > 0 {
			n, sz := uvarint(s)
			s = append(overlong(n, extra), s[sz:]...)
		}
		p08doc(t, w.version, w.typ, w.suffix, s, body)
	}})
	r = append(r, Space{Name: "best snappy", What: "snappy streams of one literal and copies of 64 bytes, as short as they can be, for all sizes up to a bound", Prog: func(c *Ctx, t *T) {
		n := 1 + c.Choose(700)
		w := oneOf(c, []wrapping{{1, gen.Snappy, nil}, {3, gen.SnappyIncr, nil}})
		c.Ready()
		body := gen.Varint([]byte{0x26}, uint64(n*64))
		if len(body) < 3 {
			body = append([]byte{0x3f}, body...)
		}
		lit := append(body, 'a')
		body = append(body, strings.Repeat("a", n*64)...)
		s := append(gen.Varint(nil, uint64(len(body))), byte(len(lit)-1)<<2)
		s = append(s, lit...)
		for left := len(body) - len(lit); left > 0; left -= 64 {
			s = append(s, byte(min(left, 64)-1)<<2|2, 1, 0)
		}
		if w.typ == gen.SnappyIncr {
			s = append(gen.Varint(nil, uint64(len(s))), s...)
		}
		p08doc(t, w.version, w.typ, w.suffix, s, body)
	}})
	return append(r, p08zstd(thorough)...)
}

// zstdBuild are the spaces for the build with the C library.
func zstdBuild(sp []Space) []Space {
	for i := range sp {
		sp[i].Build = "clibs"
	}
	return sp
}

// zstdFrames are frames for the body, of all kinds.
func zstdFrames(body []byte) (r [][]byte) {
	for level := 1; level <= 20; level++ {
		r = append(r, gen.ZstdFrame(body, level))
	}
	for _, level := range []int{1, 3, 9} {
		for _, chunk := range []int{1, 7, 1000, 1 << 30} {
			if len(body)/chunk <= 2000 {
				r = append(r, gen.ZstdStream(body, level, chunk))
			}
		}
	}
	return r
}

func p08zstd(thorough bool) []Space {
	bodies := [][]byte{{7}, gen.Short("hello hello"), seeds()[6], seeds()[12], gen.Binary(strings.Repeat("a", 300)), gen.Binary(noise(3000)), gen.Binary(strings.Repeat("abc", 40000)), gen.Binary(strings.Repeat("x", 1000*1000-4)), gen.Binary(strings.Repeat("x", 1000*1000-3)), gen.Binary(strings.Repeat("abcdefgh", 300000))}
	var frames [][][]byte
	frame := func(c *Ctx, i int) []byte {
		if frames == nil {
			for _, b := range bodies {
				frames = append(frames, zstdFrames(b))
			}
		}
		return oneOf(c, frames[i])
	}
	suffixes := [][]byte{nil, {0}, {1, 7}, append([]byte{1}, gen.Binary(filled(200))...)}
	around := []int{0, 1, 2, 5, 6, 7, 200, 999999, 1000000, 1000001}
	for d := -3; d <= 3; d++ {
		around = append(around, 1000+d)
	}
	return zstdBuild([]Space{
		{Name: "zstd", What: "bodies in frames of all levels, with and without the size of their content, flushed in between; lengths in longer varints; header data", Prog: func(c *Ctx, t *T) {
			i := c.Choose(len(bodies))
			f := frame(c, i)
			x := c.Choose(3)
			s := oneOf(c, suffixes)
			c.Ready()
			p08doc(t, 4, gen.Zstd, s, append(overlong(uint64(len(f)), x), f...), bodies[i])
		}},
		{Name: "zstd buffers", What: "such documents decompressed into buffers of lengths and capacities around theirs, and around a million, which the library takes for a large size", Prog: func(c *Ctx, t *T) {
			i := c.Choose(len(bodies))
			f := frame(c, i)
			s := oneOf(c, suffixes)
			doc := append(gen.Header(4, gen.Zstd, s), gen.ZstdBody(f)...)
			plain := gen.Doc(4, gen.Raw, s, bodies[i])
			n := oneOf(c, around)
			switch {
			case n < 100:
			case n < 1000:
				n = len(plain)
			case n < 2000:
				n = len(doc) + n - 1000
			}
			spare := oneOf(c, []int{0, 1, 1200 * 1000})
			c.Ready()
			p08decompress(t, make([]byte, n, n+spare), doc, plain)
		}},
		{Name: "zstd encoders", What: "encoders of all versions with the zstd compressor, which none of them can write, and thresholds", Prog: func(c *Ctx, t *T) {
			k := config{version: c.Choose(4), comp: gen.Zstd, level: c.Choose(24) - 1, threshold: oneOf(c, []int{0, 1, 12, 13, 14, 1024})}
			v := oneOf(c, []interface{}{7, "hello world!", strings.Repeat("ab", 500)})
			c.Ready()
			p08value(t, k, nil, v)
		}},
	})
}

// p08refs is p08value for graphs, whose decoding may not be settled.
func p08refs(t *T, k config, v interface{}) {
	doc, err := k.marshal(nil, nil, v)
	bare := k
	bare.comp = 0
	plain, err2 := bare.marshal(nil, nil, v)
	if err2 != nil {
		t.Failf("%v: %v", k, err2)
		return
	}
	if d, err := ref.Parse(plain); err == nil && !settled(d.Feats) {
		return
	}
	p08against(t, k, plain, plain[6:], doc, err)
}
