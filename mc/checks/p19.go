package checks

import (
	"bytes"
	"fmt"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P19", Spaces: p19, Assumptions: []string{
		"Not judged: bodies compressed with zstd that are not one frame (and, in the build without the C library, that are not cut off), user data in headers of version 1, and what LooksLikeSereal says about versions beyond 4 and headers that are cut off.",
	}})
}

// p19doc offers a document to all functions that take one.
func p19doc(t *T, doc []byte) {
	h, herr := ref.ParseHeader(doc)
	if herr == nil {
		herr = h.Supported()
	}
	utf8 := len(doc) >= 6 && string(doc[:4]) == "=\xc3\xb3r"
	d, err := ref.Parse(doc)
	class := errClass(err)
	if class == ref.Valid && !settled(d.Feats) {
		class = ref.Lenient
	}
	body, raw := class, ref.Lenient
	if d != nil && d.Open {
		raw = ref.Valid
	} else if class == ref.Invalid {
		raw = ref.Invalid
	}
	meta := ref.Invalid
	if herr == nil {
		if _, f, err := h.ParseMeta(); err != nil || !settled(f) || h.Version == 1 && len(h.Suffix) > 0 {
			meta = errClass(err)
			if meta == ref.Valid {
				meta = ref.Lenient
			}
		} else {
			meta = ref.Valid
		}
		t.Count("header ok, body " + body.String())
	} else {
		body, raw = ref.Invalid, ref.Invalid
		t.Count("header not ok")
	}
	judge := func(what string, class ref.Class, err error) {
		switch {
		case isPanic(err):
		case utf8:
			if err == sereal.ErrBadHeaderUTF8 {
				return
			}
		case err == sereal.ErrBadHeaderUTF8:
		case class == ref.Lenient, (err == nil) == (class == ref.Valid):
			return
		}
		t.Failf("%s: document %s is %v, but the call returns %v", what, hexdump(doc), class, err)
	}
	before := clone(doc)
	for _, m := range modes[:2] {
		what := ", " + modeName(m)
		dec := newDecoder(m)
		_, err := decodeAny(dec, doc)
		judge("Unmarshal"+what, body, err)
		var v interface{}
		judge("UnmarshalHeader"+what, meta, safe(func() error { return dec.UnmarshalHeader(doc, &v) }))
		both := body
		if meta != ref.Valid {
			both = meta
		}
		var w interface{}
		v = nil
		judge("UnmarshalHeaderBody"+what, both, safe(func() error { return dec.UnmarshalHeaderBody(doc, &v, &w) }))
	}
	judge("DecompressDocument", raw, safe(func() error { _, err := sereal.DecompressDocument(nil, doc); return err }))
	for _, i := range []int{0, 1, 9} {
		mg := newMerger(i)
		judge("Append, "+mergerName(i), body, safe(func() error { _, err := mg.Append(doc); return err }))
	}
	looks := false
	if err := safe(func() error { looks = sereal.LooksLikeSereal(doc); return nil }); err != nil {
		t.Failf("LooksLikeSereal: document %s: %v", hexdump(doc), err)
	}
	fits := len(doc) >= 5 && (string(doc[:4]) == "=srl" && doc[4]&15 >= 1 && doc[4]&15 <= 2 || string(doc[:4]) == "=\xf3rl" && doc[4]&15 >= 3)
	if looks && !fits || !looks && herr == nil && len(doc) >= 7 {
		t.Failf("LooksLikeSereal: document %s: %v", hexdump(doc), looks)
	}
	if !bytes.Equal(doc, before) {
		t.Failf("document %s was changed to %s", hexdump(before), hexdump(doc))
	}
}

func p19(thorough bool) []Space {
	magics := [][]byte{[]byte("=srl"), []byte("=\xf3rl"), []byte("=\xc3\xb3rl")}
	bodies := [][]byte{{7}, cat([]byte{0x42}, gen.Short("x"), gen.Binary("yy"))}
	suffixes := [][]byte{nil, {0}, {1, 9}, {2, 9, 9}, cat([]byte{1}, gen.Binary("user data"))}
	// tails that any type of document could have
	var tails [][]byte
	for _, b := range bodies {
		for typ := 0; typ <= gen.Zlib; typ++ {
			tails = append(tails, gen.Compress(typ, b))
		}
		tails = append(tails, cat(gen.Varint(nil, 13), []byte{0x28, 0xb5, 0x2f, 0xfd, 0x20, byte(len(b)), 1 | byte(len(b))<<3, 0, 0}, b))
	}
	pairs := 1
	if thorough {
		pairs = 2
	}
	r := []Space{
		{Name: "magics", What: fmt.Sprintf("the three magics with up to %d of their bytes changed to any other, every version, every type up to 5", pairs), Prog: func(c *Ctx, t *T) {
			doc := clone(oneOf(c, magics))
			types := 6
			for i := 0; i < pairs; i++ {
				at, v := c.Choose(len(doc)), c.Choose(256)
				if i > 0 {
					types = 1
				}
				doc[at] = byte(v)
			}
			doc = append(doc, byte(c.Choose(16)|c.Choose(types)<<4), 0, 0x41, 7)
			c.Ready()
			t.Sample(func() string { return hexdump(doc) })
			p19doc(t, doc)
		}},
		{Name: "versions and types", What: "the three magics with every version and type, header data, and bodies in the form of every type", Prog: func(c *Ctx, t *T) {
			doc := append(clone(oneOf(c, magics)), byte(c.Choose(256)))
			s := oneOf(c, suffixes)
			doc = append(gen.Varint(doc, uint64(len(s))), s...)
			doc = append(doc, oneOf(c, tails)...)
			c.Ready()
			t.Sample(func() string { return hexdump(doc) })
			p19doc(t, doc)
		}},
	}
	var hdrSizes []int
	for i := uint(6); i < 22; i++ {
		for d := -2; d <= 2; d++ {
			hdrSizes = append(hdrSizes, 1<<i+d)
		}
	}
	type vt struct{ version, typ int }
	var good []vt
	for v := 1; v <= 4; v++ {
		for _, typ := range gen.Types(v) {
			good = append(good, vt{v, typ})
		}
	}
	r = append(r, Space{Name: "header lengths", What: "header lengths up to 300 and of all magnitudes, in varints of every length, with as many bytes behind them, or more, or fewer", Prog: func(c *Ctx, t *T) {
		k := oneOf(c, good)
		n := uint64(c.Choose(301 + len(magnitudes())))
		if n > 300 {
			n = magnitudes()[n-301]
		}
		doc := gen.Varint(gen.Header(k.version, k.typ, nil)[:5], n)
		for pad := c.Choose(12); pad > 0; pad-- {
			doc[len(doc)-1] |= 0x80
			doc = append(doc, 0)
		}
		less := c.Choose(4)
		c.Ready()
		if n <= 300 && int(n)-less >= 0 {
			doc = append(doc, make([]byte, int(n)-less)...)
		}
		if less != 1 {
			doc = append(doc, gen.Compress(k.typ, bodies[1])...)
		}
		t.Sample(func() string { return hexdump(doc) })
		p19doc(t, doc)
	}}, Space{Name: "header sizes", What: "header data of all sizes around every power of 128 and of 2 up to 2 MB, in documents of all versions and types", Prog: func(c *Ctx, t *T) {
		k := oneOf(c, good)
		n := oneOf(c, hdrSizes)
		user := c.Bool()
		c.Ready()
		s := make([]byte, n)
		if user && n > 6 {
			for at := 0; at < 4; at++ {
				s = cat([]byte{1}, gen.Binary(filled(n-2-at)))
				if len(s) == n {
					break
				}
			}
		}
		doc := gen.Doc(k.version, k.typ, s, bodies[1])
		t.Sample(func() string { return fmt.Sprintf("header data of %d bytes", len(s)) })
		p19doc(t, doc)
	}}, Space{Name: "cut", What: "documents of all versions and types, with header data, cut off anywhere", Prog: func(c *Ctx, t *T) {
		k := oneOf(c, good)
		doc := gen.Doc(k.version, k.typ, oneOf(c, suffixes), oneOf(c, bodies))
		doc = doc[:c.Choose(len(doc)+1)]
		c.Ready()
		t.Sample(func() string { return hexdump(doc) })
		p19doc(t, doc)
	}}, Space{Name: "UTF-8", What: "documents of all versions and types whose bytes have been taken for Latin-1 and converted to UTF-8, cut off anywhere", Prog: func(c *Ctx, t *T) {
		k := oneOf(c, good)
		var doc []byte
		for _, b := range gen.Doc(k.version, k.typ, oneOf(c, suffixes), oneOf(c, bodies)) {
			doc = append(doc, string(rune(b))...)
		}
		doc = doc[:c.Choose(len(doc)+1)]
		c.Ready()
		t.Sample(func() string { return hexdump(doc) })
		p19doc(t, doc)
	}}, Space{Name: "short", What: "all byte strings of up to 2 bytes after each beginning of a magic", Prog: func(c *Ctx, t *T) {
		m := oneOf(c, magics)
		doc := clone(m[:c.Choose(len(m)+1)])
		for n := c.Choose(3); n > 0; n-- {
			doc = append(doc, byte(c.Choose(256)))
		}
		c.Ready()
		t.Sample(func() string { return hexdump(doc) })
		p19doc(t, doc)
	}})
	return append(r, zstdBuild([]Space{{Name: "zstd", What: "the three magics with every version and type, header data, and bodies compressed with zstd at several levels, in longer varints, cut off or with more bytes behind them", Prog: func(c *Ctx, t *T) {
		doc := append(clone(oneOf(c, magics)), byte(c.Choose(256)))
		s := oneOf(c, suffixes)
		doc = append(gen.Varint(doc, uint64(len(s))), s...)
		f := gen.ZstdFrame(oneOf(c, bodies), 1+2*c.Choose(3))
		z := append(overlong(uint64(len(f)), c.Choose(3)), f...)
		n := c.Choose(len(z) + 3)
		c.Ready()
		if n < len(z) {
			z = z[:n]
		} else {
			z = append(z, make([]byte, n-len(z))...)
		}
		doc = append(doc, z...)
		t.Sample(func() string { return hexdump(doc) })
		p19doc(t, doc)
	}}})...)
}
