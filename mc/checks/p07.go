package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/order"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P07", Spaces: p07, Assumptions: []string{
		"The reference parser (mc/ref) says what header data and body are; bodies are compared byte for byte with those of documents without header data where the order of map keys is not at stake.",
	}})
}

// p07pair encodes header data with a body.
func p07pair(t *T, k config, h, v interface{}, bytewise bool) {
	doc, err := k.marshal(nil, h, v)
	plain, err2 := k.marshal(nil, nil, v)
	other, err3 := k.marshal(nil, h, 7)
	if err != nil || err2 != nil || err3 != nil {
		t.Failf("%v: header %s, body %s: %v, %v, %v", k, ref.Show(h), ref.Show(v), err, err2, err3)
		return
	}
	t.Sample(func() string {
		return fmt.Sprintf("%v: header %s, body %s: %s", k, ref.Show(h), ref.Show(v), hexdump(doc))
	})
	p03doc(t, k, h, v, doc)
	if bytewise {
		a, err := ref.ParseHeader(doc)
		b, err2 := ref.ParseHeader(plain)
		c, err3 := ref.ParseHeader(other)
		if err != nil || err2 != nil || err3 != nil {
			t.Failf("%v: header %s, body %s: %v, %v, %v", k, ref.Show(h), ref.Show(v), err, err2, err3)
			return
		}
		if x, y := doc[a.BodyAt:], plain[b.BodyAt:]; !sameBytes(x, y) || doc[4] != plain[4] {
			t.Failf("%v: body %s is %s with header data %s, and %s without", k, ref.Show(v), hexdump(x), ref.Show(h), hexdump(y))
		}
		if !sameBytes(a.Suffix, c.Suffix) {
			t.Failf("%v: header data %s is %s with the body %s, and %s with another", k, ref.Show(h), hexdump(a.Suffix), ref.Show(v), hexdump(c.Suffix))
		}
	}
	p07doc(t, doc)
}

// p07doc reads header data and body of a document in all ways.
func p07doc(t *T, doc []byte) {
	d, err := ref.Parse(doc)
	body := errClass(err)
	if body == ref.Valid && !settled(d.Feats) {
		body = ref.Lenient
	}
	h, err := ref.ParseHeader(doc)
	if err != nil {
		t.Failf("document %s: %v", hexdump(doc), err)
		return
	}
	user, feats, err := h.ParseMeta()
	meta := errClass(err)
	if meta == ref.Valid && !settled(feats) {
		meta = ref.Lenient
	}
	t.Count("header " + meta.String() + ", body " + body.String())
	both := body
	if meta != ref.Valid && (both == ref.Valid || meta == ref.Invalid) {
		both = meta
	}
	sentinel := new(int)
	for _, m := range modes {
		bad := func(what string, err error) {
			t.Failf("%s of %s, %s: %v", what, hexdump(doc), modeName(m), err)
		}
		judge := func(what string, class ref.Class, err error, same func() error) {
			switch {
			case isPanic(err):
				bad(what, err)
			case class == ref.Valid:
				if err == nil {
					err = same()
				}
				if err != nil {
					bad(what, err)
				}
			case class == ref.Invalid && err == nil:
				bad(what, fmt.Errorf("no error, though the document is not valid"))
			}
		}
		var hv, bv, hv2, bv2 interface{} = nil, nil, nil, nil
		sameMeta := func(v interface{}) error {
			if user == nil {
				if v != nil {
					return fmt.Errorf("no header data, but the variable became %s", ref.Show(v))
				}
				return nil
			}
			return ref.SameDecoded(user, v, m)
		}
		err := safe(func() error { return newDecoder(m).UnmarshalHeader(doc, &hv) })
		judge("UnmarshalHeader", meta, err, func() error { return sameMeta(hv) })
		err = safe(func() error { return newDecoder(m).Unmarshal(doc, &bv) })
		judge("Unmarshal", body, err, func() error { return ref.SameDecoded(d.Body, bv, m) })
		err = safe(func() error { return newDecoder(m).UnmarshalHeaderBody(doc, &hv2, &bv2) })
		judge("UnmarshalHeaderBody", both, err, func() error {
			if user == nil {
				if err := sameMeta(hv2); err != nil {
					return err
				}
				return ref.SameDecoded(d.Body, bv2, m)
			}
			// in one, so that they share nothing
			return ref.SameDecoded(&ref.Node{Kind: ref.Array, Kids: []*ref.Node{user, d.Body}}, []interface{}{hv2, bv2}, m)
		})
		var none interface{} = sentinel
		if err := safe(func() error { return newDecoder(m).UnmarshalHeader(doc, &none) }); user == nil && meta == ref.Valid && (err != nil || none != interface{}(sentinel)) {
			bad("UnmarshalHeader to a variable that is in use, of a document without header data", fmt.Errorf("%v, %s", err, ref.Show(none)))
		}
	}
}

// p07typed decodes header and body into their own types.
func p07typed(t *T, k config, h, v interface{}) {
	doc, err := k.marshal(nil, h, v)
	if err != nil {
		t.Failf("%v: header %s, body %s: %v", k, ref.Show(h), ref.Show(v), err)
		return
	}
	t.Sample(func() string {
		return fmt.Sprintf("%v: header %T, body %T: %s", k, h, v, hexdump(doc))
	})
	for calls := 1; calls <= 3; calls++ {
		hp, vp := reflect.New(reflect.TypeOf(h)), reflect.New(reflect.TypeOf(v))
		dec := sereal.NewDecoder()
		err := safe(func() error {
			switch calls {
			case 1:
				return dec.UnmarshalHeader(doc, hp.Interface())
			case 2:
				return dec.Unmarshal(doc, vp.Interface())
			}
			return dec.UnmarshalHeaderBody(doc, hp.Interface(), vp.Interface())
		})
		if err == nil && calls&1 != 0 {
			err = sameShape(reflect.ValueOf(h), hp.Elem())
		}
		if err == nil && calls&2 != 0 {
			err = sameShape(reflect.ValueOf(v), vp.Elem())
		}
		if err != nil {
			t.Failf("%v: header %#v, body %#v, encoded as %s and decoded (%d): %v", k, h, v, hexdump(doc), calls, err)
		}
	}
}

type p07Head struct {
	Name string
	Next *p07Head
	Tags map[string]string
	L    []string
	Any  interface{}
}

func p07(thorough bool) []Space {
	more := 0
	if thorough {
		more = 1
	}
	var r []Space
	cs := []config{{version: 2}, {version: 3}, {version: 3, perl: true}, {version: 3, nodedup: true}, {}}
	shared := func(name string, g heapGrammar, configs []config) {
		r = append(r, Space{Name: name, What: fmt.Sprintf("all pairs of header data and body of at most %d values each, with pointers that they may share (%s), %d encoders", g.tokens, name, len(configs)), Prog: func(c *Ctx, t *T) {
			gen := &heapGen{heapGrammar: &g, c: c, left: g.tokens}
			h := gen.value(0)
			gen.left = g.tokens
			v := gen.value(0)
			k := oneOf(c, configs)
			c.Ready()
			if h != nil {
				p07pair(t, k, h, v, true)
			}
		}})
	}
	shared("strings and keys", heapGrammar{tokens: 3 + more, maxKids: 2, leaves: []interface{}{nil, "a", []byte("b"), 300}, slices: true, maps: true}, cs)
	shared("boxes", heapGrammar{tokens: 3 + more, maxKids: 2, leaves: []interface{}{"a"}, slices: true, boxes: true, strs: true, pslices: true}, cs)
	shared("containers", heapGrammar{tokens: 3 + more, maxKids: 2, leaves: []interface{}{"a"}, slices: true, maps: true, pmaps: true, structs: true, shallow: true, noCycles: true}, cs[:3])
	shared("Perl", heapGrammar{tokens: 3 + more, maxKids: 2, leaves: []interface{}{"Cls"}, slices: true, boxes: true, perl: true}, []config{{version: 2, perl: true}, {version: 3, perl: true}, {version: 3}})

	// the places where the length of the header matters
	sizes := append(ints([2]int{0, 300}, [2]int{16370, 16390}), 65535, 70000, 2097140, 2097152, 3000000)
	p := &map[string]interface{}{"key": "v"}
	bodies := []interface{}{7, []interface{}{map[string]interface{}{"key": 1}, map[string]interface{}{"key": 2}, p, p, "x"}, strings.Repeat("text ", 300), []interface{}{filled(125), p, p}, nil}
	r = append(r, Space{Name: "header sizes", What: "header data of every size up to a bound and around the powers of 128, with bodies that have offsets, compressed and not", Prog: func(c *Ctx, t *T) {
		n := oneOf(c, sizes)
		var h interface{} = filled(n)
		switch c.Choose(4) {
		case 1:
			h = []byte(filled(n))
		case 2:
			h = []interface{}{map[string]interface{}{"key": filled(n)}, p, map[string]interface{}{"key": 3}, p}
		case 3:
			h = map[string]interface{}{filled(n): p}
		}
		v := oneOf(c, bodies)
		k := oneOf(c, []config{{version: 2}, {version: 3}, {version: 2, comp: gen.SnappyIncr}, {version: 3, comp: gen.SnappyIncr, threshold: 1024}, {version: 3, comp: gen.Zlib, threshold: 1024}})
		c.Ready()
		p07pair(t, k, h, v, true)
	}})

	// several keys, and all orders of them
	two := map[string]interface{}{"a": p, "b": map[string]interface{}{"a": 1}}
	many := []interface{}{two, []interface{}{two, p, "a"}, map[string]interface{}{"b": two, "a": p, "key": 1}}
	r = append(r, Space{Name: "key orders", What: "header data and bodies with maps of several keys, in all orders", Prog: func(c *Ctx, t *T) {
		h, v := oneOf(c, many), oneOf(c, many)
		k := oneOf(c, cs)
		order.Repeat(c)
		c.Ready()
		doc, err := k.marshal(c, h, v)
		if err != nil {
			t.Failf("%v: %v", k, err)
			return
		}
		t.Sample(func() string { return hexdump(doc) })
		p03doc(t, k, h, v, doc)
		p07doc(t, doc)
	}})

	// typed
	x, y := &p07Head{Name: "x"}, &p07Head{Name: "y", L: []string{"a", "a"}, Tags: map[string]string{"Name": "Next"}}
	z := &p07Head{Name: "x", Next: x}
	w := &p07Head{Name: "self"}
	w.Next = w
	vals := []interface{}{*x, *y, *z, *w, x, y, z, w, []*p07Head{x, x, z, y}, map[string]*p07Head{"Name": x}, map[string]string{"Name": "x"}, []string{"Name", "Name", "x"}, [2]*p07Head{w, z}, 5, "x", []byte("Name"), map[string][]byte{"x": []byte("y")},
		gPair{V: 1, A: &gPair{V: 2}}, plainS{}, true, 2.5, [][]string{{"a"}, {"a", "x"}}}
	r = append(r, Space{Name: "typed", What: "all pairs of typed header data and body from a list with shared and cyclic pointers, structs, maps, slices and scalars; decoded into the same types", Prog: func(c *Ctx, t *T) {
		h, v := oneOf(c, vals), oneOf(c, vals)
		k := oneOf(c, []config{{version: 2}, {version: 3}, {version: 3, nodedup: true}, {version: 3, comp: gen.Zlib}, {version: 2, comp: gen.SnappyIncr}})
		order.Repeat(c)
		c.Ready()
		p07typed(t, k, h, v)
	}})

	// documents
	tokens := 3
	g := gen.Grammar{Tokens: tokens, MaxKids: 2, Leaves: [][]byte{{7}, gen.Short("b")}, Array: true, Hash: true, Refn: true, Refp: true, Alias: true, Copy: true, Object: true}
	small := g
	small.Tokens = 2
	if thorough {
		small.Tokens = 3
	}
	wraps := []wrapping{{2, gen.Raw, nil}, {3, gen.Raw, nil}, {4, gen.Zlib, nil}, {2, gen.SnappyIncr, nil}}
	r = append(r, Space{Name: "documents", What: fmt.Sprintf("all documents with header data of at most %d items and a body of at most %d, of four kinds", g.Tokens, small.Tokens), Prog: func(c *Ctx, t *T) {
		gh, gb := g, small
		gh.Base, gb.Base = 1, 1
		h := gh.Body(c)
		b := gb.Body(c)
		w := oneOf(c, wraps)
		c.Ready()
		w.suffix = append([]byte{1}, h...)
		doc := w.doc(b)
		t.Sample(func() string { return hexdump(doc) })
		p07doc(t, doc)
	}}, Space{Name: "bodies", What: "all documents with header data of at most 2 items and a body of at most 3", Prog: func(c *Ctx, t *T) {
		gh, gb := g, g
		gh.Tokens, gh.Base, gb.Base = 2, 1, 1
		h := gh.Body(c)
		b := gb.Body(c)
		w := oneOf(c, wraps[:2])
		c.Ready()
		w.suffix = append([]byte{1}, h...)
		doc := w.doc(b)
		t.Sample(func() string { return hexdump(doc) })
		p07doc(t, doc)
	}}, Space{Name: "strange offsets", What: "header data and bodies with tracked items everywhere and offsets to everywhere: what is tracked in one is not in the other", Prog: func(c *Ctx, t *T) {
		full := [][]byte{{0x87}, {0xc2, 0x87, 0xe1, 'x'}, {0xa8, 0xab, 2, 0x87, 0xe1, 'x'}, {0xac, 0xe1, 'x', 0xd1, 0xe1, 'k', 0x87}, {0xab, 3, 0x87, 0x87, 0x87}}
		refs := [][]byte{{0x29}, {0x2e}, {0x42, 7, 0x29}, {0x41, 0x2f}, {0x43, 7, 0x28, 0x2e}, {0x51, 0x2f}, {0x42, 0x61, 'X', 0x2d}}
		f := oneOf(c, full)
		x := append(clone(oneOf(c, refs)), byte(c.Choose(16)))
		x = append(x, 7)
		inBody := c.Bool()
		w := oneOf(c, wraps)
		c.Ready()
		h, b := f, x
		if inBody {
			h, b = x, f
		}
		w.suffix = append([]byte{1}, h...)
		doc := w.doc(b)
		t.Sample(func() string { return hexdump(doc) })
		p07doc(t, doc)
	}})

	// header data that is damaged, or bodies
	r = append(r, Space{Name: "damage", What: "documents with header data and body out of valid ones with all tags; one of the two is damaged: any byte changed to any other, removed, or added, or cut off", Prog: func(c *Ctx, t *T) {
		all := seeds()
		dam := damaged(all)
		var h, b []byte
		if c.Bool() {
			h, b = dam.body(c), oneOf(c, [][]byte{all[4], all[12]})
		} else {
			h, b = oneOf(c, [][]byte{all[4], all[12]}), dam.body(c)
		}
		c.Ready()
		doc := gen.Doc(3, gen.Raw, append([]byte{1}, h...), b)
		t.Sample(func() string { return hexdump(doc) })
		p07doc(t, doc)
	}}, Space{Name: "damaged compression", What: "documents with header data and a compressed body that is damaged anywhere or cut off: the header data can be read", Prog: func(c *Ctx, t *T) {
		w := oneOf(c, []wrapping{{2, gen.SnappyIncr, nil}, {3, gen.Zlib, nil}, {4, gen.SnappyIncr, nil}})
		all := seeds()
		w.suffix = append([]byte{1}, oneOf(c, all)...)
		doc := w.doc(all[12])
		at := len(gen.Header(w.version, w.typ, w.suffix))
		i := at + c.Choose(len(doc)-at)
		if c.Bool() {
			doc = doc[:i]
		} else {
			doc[i] ^= 1 << c.Choose(8)
		}
		c.Ready()
		t.Sample(func() string { return hexdump(doc) })
		p07doc(t, doc)
	}}, Space{Name: "flags", What: "headers with every flag byte, with and without bytes behind it: only bit 0 announces header data", Prog: func(c *Ctx, t *T) {
		v := 2 + c.Choose(3)
		s := append([]byte{byte(c.Choose(256))}, oneOf(c, [][]byte{nil, {7}, {0x41, 7}, {0x2b}, {7, 7}})...)
		if c.Bool() {
			s = nil
		}
		doc := gen.Doc(v, gen.Raw, s, []byte{0x42, 1, 2})
		c.Ready()
		t.Sample(func() string { return hexdump(doc) })
		p07doc(t, doc)
	}})
	return r
}
