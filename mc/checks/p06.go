package checks

import (
	"bytes"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P06", Spaces: p06, Assumptions: []string{
		"What breaks the specification is what the reference parser calls invalid; what is merely odd (a COPY of an item that holds references, an F bit on PAD, LONG_DOUBLE) is not judged.",
		"Bytes after the end of the body are not judged.",
	}})
}

// p06types are typed destinations that invalid documents must not get into.
var p06types = []reflect.Type{reflect.TypeOf(node{}), reflect.TypeOf([]interface{}{}), reflect.TypeOf(map[string]interface{}{}), reflect.TypeOf([]node{}), reflect.TypeOf(map[string]*node{}), reflect.TypeOf([]string{}), reflect.TypeOf([]int{}), reflect.TypeOf(map[string][]byte{}), reflect.TypeOf([1]int{})}

func p06doc(t *T, doc []byte, header bool, parsed func() error) {
	err := parsed()
	t.Count(errClass(err).String())
	if errClass(err) != ref.Invalid {
		return
	}
	t.Sample(func() string { return hexdump(doc) + " is " + err.Error() })
	unmarshal := func(d *sereal.Decoder, v interface{}) error {
		return safe(func() error {
			if header {
				return d.UnmarshalHeader(doc, v)
			}
			return d.Unmarshal(doc, v)
		})
	}
	for _, m := range modes {
		var v interface{}
		if e := unmarshal(newDecoder(m), &v); e == nil {
			t.Failf("%s: document %s is %v, but decoded into %s", modeName(m), hexdump(doc), err, ref.Show(v))
			return
		}
	}
	for i, typ := range p06types {
		p := reflect.New(typ)
		m := modes[0]
		if i&1 == 1 {
			m = modes[1]
		}
		if e := unmarshal(newDecoder(m), p.Interface()); e == nil {
			t.Failf("%s: document %s is %v, but decoded into %s", modeName(m), hexdump(doc), err, ref.Show(p.Elem().Interface()))
			return
		}
	}
}

func p06(thorough bool) []Space {
	var r []Space
	for _, bs := range byteSpaces(thorough) {
		bs := bs
		r = append(r, Space{Name: bs.name, What: bs.what, Prog: func(c *Ctx, t *T) {
			body := bs.body(c)
			c.Ready()
			doc := rawDoc(3, body)
			p06doc(t, doc, false, func() error { _, err := ref.Parse(doc); return err })
		}})
	}
	// the same in version 1, whose offsets count differently, and in the header
	small := []byteSpace{wordsOver("tags", fewTagBytes, 3), wordsOver("references", refBytes, 4), damaged(seeds()), cut(withTokens(anyGrammar, 3))}
	if thorough {
		small = []byteSpace{wordsOver("tags", fewTagBytes, 4), wordsOver("references", refBytes, 5), damaged(seeds()), cut(withTokens(anyGrammar, 4))}
	}
	for _, bs := range small {
		bs := bs
		r = append(r, Space{Name: "v1 " + bs.name, What: bs.what + ", version 1", Prog: func(c *Ctx, t *T) {
			body := bs.body(c)
			c.Ready()
			doc := rawDoc(1, body)
			p06doc(t, doc, false, func() error { _, err := ref.Parse(doc); return err })
		}}, Space{Name: "header " + bs.name, What: bs.what + ", as user data in the header, in front of a body that would complete it", Prog: func(c *Ctx, t *T) {
			suffix := append([]byte{1}, bs.body(c)...)
			c.Ready()
			doc := gen.Doc(3, gen.Raw, suffix, []byte{7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7, 7})
			h, err := ref.ParseHeader(doc)
			if err != nil {
				t.Failf("reference: %v", err)
				return
			}
			if len(suffix) > 1 {
				p06doc(t, doc, true, func() error { _, _, err := h.ParseMeta(); return err })
			}
		}})
	}
	inner, last := []byte{0x80, 0x81, 0xff}, []byte{0, 1, 2, 0x7f, 0x80}
	r = append(r, Space{Name: "varints", What: "varints of 1 to 16 bytes wherever there is one: in numbers, lengths, counts, offsets, and lengths of header data and compressed bodies", Prog: func(c *Ctx, t *T) {
		v := bytes.Repeat([]byte{oneOf(c, inner)}, c.Choose(16))
		if len(v) > 1 && c.Bool() {
			v[0] = 0x81
		}
		v = append(v, oneOf(c, last))
		where := c.Choose(14)
		version := 1 + c.Choose(4)
		c.Ready()
		magic := gen.Header(version, gen.Raw, nil)[:5]
		rest := []byte{1, 1, 1, 1, 1, 1}
		body := func(b ...[]byte) []byte { return cat(magic, []byte{0}, cat(b...)) }
		doc := [][]byte{
			cat(magic, v, rest, rest),
			body([]byte{0x20}, v), body([]byte{0x21}, v), body([]byte{0x26}, v, rest), body([]byte{0x27}, v, rest),
			body([]byte{0x2b}, v, rest), body([]byte{0x2a}, v, []byte("aabbcc")),
			body([]byte{0x43, 0x82, 0x61, 'x', 0x29}, v), body([]byte{0x43, 0x82, 0x61, 'x', 0x2e}, v), body([]byte{0x43, 0x82, 0x61, 'x', 0x2f}, v),
			body([]byte{0x42, 0x61, 'x', 0x2d}, v, rest),
			nil, nil, nil,
		}[where]
		typ := gen.SnappyIncr
		if where >= 12 {
			typ = gen.Zlib
		}
		if doc == nil {
			if typ == gen.Zlib && version < 3 {
				return
			}
			whole := gen.Doc(version, typ, nil, gen.Binary(filled(100)))
			_, n := uvarint(whole[6:])
			_, m := uvarint(whole[6+n:])
			switch where {
			case 11, 12:
				doc = cat(whole[:6], v, whole[6+n:])
			case 13:
				doc = cat(whole[:6+n], v, whole[6+n+m:])
			}
		}
		p06doc(t, doc, false, func() error { _, err := ref.Parse(doc); return err })
	}})
	bodies := [][]byte{
		seeds()[2], seeds()[5], seeds()[12],
		cat([]byte{0x2b, 2}, gen.Binary(filled(300)), gen.Binary(filled(300))),
	}
	r = append(r, Space{Name: "compressed", What: "compressed documents of all types, cut off anywhere or with any byte of the body changed to any other", Prog: func(c *Ctx, t *T) {
		version := 1 + c.Choose(4)
		typ := oneOf(c, gen.Types(version)[1:])
		doc := damagedDoc(c, version, typ, bodies, 6)
		c.Ready()
		p06doc(t, doc, false, func() error { _, err := ref.Parse(doc); return err })
	}})
	return append(r, zstdBuild([]Space{{Name: "zstd compressed", What: "documents compressed with zstd, cut off anywhere or with any byte of the body changed to any other", Prog: func(c *Ctx, t *T) {
		doc := damagedDoc(c, 4, gen.Zstd, bodies, 6)
		c.Ready()
		p06doc(t, doc, false, func() error { _, err := ref.Parse(doc); return err })
	}}})...)
}
