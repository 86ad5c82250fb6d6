package checks

import (
	"fmt"

	"verif/mc/gen"
	"verif/mc/order"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P17", Spaces: p17, Assumptions: []string{
		"Documents are those that Perl data can be: arrays and hashes are behind references; aliases are left out, as encoders never write them.",
		"Hash keys are compared as text: the decoder does not keep apart binary and UTF-8 keys.",
		"References to one scalar may come back as references to equal scalars; sharing is compared for arrays and hashes.",
	}})
}

// again decodes and encodes with PerlCompat.
func again(c *Ctx, t *T, k config, doc []byte, what string) (next []byte, d *ref.Doc, ok bool) {
	v, err := decodeAny(newDecoder(ref.Mode{PerlCompat: true}), doc)
	if err != nil {
		t.Failf("%s %s: decoding: %v", what, hexdump(doc), err)
		return nil, nil, false
	}
	next, err = k.marshal(c, nil, v)
	if err != nil {
		t.Failf("%s %s: encoding %s again with %v: %v", what, hexdump(doc), ref.Show(v), k, err)
		return nil, nil, false
	}
	d, err = ref.Parse(next)
	if err != nil {
		t.Failf("%s %s: encoded again with %v as %s: %v", what, hexdump(doc), k, hexdump(next), err)
		return nil, nil, false
	}
	return next, d, true
}

func p17doc(c *Ctx, t *T, k config, doc []byte) {
	d, err := ref.Parse(doc)
	if err != nil || !settled(d.Feats) || d.Feats.Alias {
		t.Count(unsettled(d, err))
		return
	}
	if !ref.PerlShaped(d.Body) {
		t.Count("not like Perl")
		return
	}
	t.Count("compared")
	next, d2, ok := again(c, t, k, doc, "document")
	if !ok {
		return
	}
	t.Sample(func() string { return hexdump(doc) + " becomes " + hexdump(next) })
	if err := ref.SamePerl(d.Body, d2.Body); err != nil {
		t.Failf("document %s decoded and encoded with %v is %s: %v", hexdump(doc), k, hexdump(next), err)
		return
	}
	last, d3, ok := again(c, t, k, next, "document")
	if !ok {
		return
	}
	if err := ref.SamePerl(d2.Body, d3.Body); err != nil {
		t.Failf("document %s decoded and encoded with %v is %s, and after another time %s: %v", hexdump(doc), k, hexdump(next), hexdump(last), err)
	}
}

func p17(thorough bool) []Space {
	more := 0
	if thorough {
		more = 1
	}
	cs := []config{{version: 3, perl: true}, {version: 2, perl: true, nodedup: true}, {version: 1, perl: true}}
	var r []Space
	grammar := func(name string, g gen.Grammar, configs []config, orders bool) {
		what := fmt.Sprintf("all documents of at most %d items of the grammar %s, %d encoders", g.Tokens, name, len(configs))
		if orders {
			what += ", in all orders of keys"
		}
		r = append(r, Space{Name: name, What: what, Prog: func(c *Ctx, t *T) {
			g := g
			g.Base = 1
			g.Perlish = true
			body := g.Body(c)
			k := oneOf(c, configs)
			if !orders {
				c.Ready()
				p17doc(nil, t, k, rawDoc(3, body))
				return
			}
			order.Repeat(c)
			c.Ready()
			p17doc(c, t, k, rawDoc(3, body))
		}})
	}
	few := [][]byte{{0x25}, {7}, gen.Short("b")}
	grammar("leaves", gen.Grammar{Tokens: 3 + more, MaxKids: 2, Leaves: append(gen.AllLeaves(), gen.Binary(filled(40)), gen.Float32(-0.0)), Array: true, Hash: true, Inline: true, Refn: true, Weak: true, Object: true, Freeze: true, Regexp: true, Pad: true, Refp: true, Copy: true}, cs, false)
	grammar("containers", gen.Grammar{Tokens: 5 + more, MaxKids: 3, Leaves: few, Array: true, Hash: true, Inline: true}, cs, false)
	grammar("references", gen.Grammar{Tokens: 6 + more, MaxKids: 3, Leaves: [][]byte{{7}}, Array: true, Refn: true, Refp: true, Inline: true}, cs[:2], false)
	grammar("hash references", gen.Grammar{Tokens: 5 + more, MaxKids: 3, Leaves: [][]byte{{7}}, Array: true, Hash: true, Refn: true, Refp: true, Inline: true, Weak: true}, cs[:2], false)
	grammar("hash references, orders", gen.Grammar{Tokens: 4 + more, MaxKids: 3, Leaves: [][]byte{{7}}, Array: true, Hash: true, Refn: true, Refp: true}, cs[:1], true)
	grammar("copies", gen.Grammar{Tokens: 5 + more, MaxKids: 3, Leaves: [][]byte{gen.Short("b"), gen.UTF8("u")}, Array: true, Hash: true, Copy: true, Refn: true, Object: true}, cs[:2], false)
	grammar("class copies", gen.Grammar{Tokens: 6 + more, MaxKids: 4, Leaves: [][]byte{gen.Short("b")}, Array: true, Copy: true, Object: true}, cs[:2], false)
	grammar("objects", gen.Grammar{Tokens: 5 + more, MaxKids: 2, Leaves: [][]byte{gen.Short("b")}, Array: true, Hash: true, Refn: true, Refp: true, Copy: true, Object: true, Freeze: true, Weak: true}, cs[:2], false)
	grammar("weak references", gen.Grammar{Tokens: 7 + more, MaxKids: 2, Leaves: [][]byte{{7}}, Array: true, Refp: true, Object: true, Weak: true}, cs[:1], false)
	grammar("undefs", gen.Grammar{Tokens: 6 + more, MaxKids: 3, Leaves: [][]byte{{0x25}, {0x39}}, Array: true, Refn: true, Refp: true, Weak: true}, cs[:2], false)
	grammar("everything", gen.Grammar{Tokens: 4 + more, MaxKids: 2, Leaves: gen.SomeLeaves(), Array: true, Hash: true, Inline: true, Refn: true, Refp: true, Copy: true, Object: true, Freeze: true, Weak: true, Regexp: true, Pad: true}, cs, false)

	shapes := func(name, what string, ss []shape) {
		r = append(r, Space{Name: name, What: what, Prog: func(c *Ctx, t *T) {
			s := oneOf(c, ss)
			n := oneOf(c, s.sizes)
			k := oneOf(c, cs)
			c.Ready()
			// the same with a reference in front, for arrays and hashes
			p17doc(nil, t, k, rawDoc(3, s.make(1, n)))
			p17doc(nil, t, k, rawDoc(3, append([]byte{0x28}, s.make(2, n)...)))
		}})
	}
	var sizes []shape
	for _, s := range sizeShapes() {
		var n []int
		for _, x := range s.sizes {
			if x <= 40 || x >= 126 && x <= 140 || x >= 254 && x <= 258 || x == 16384 || x == 65536 {
				n = append(n, x)
			}
		}
		s.sizes = n
		sizes = append(sizes, s)
	}
	shapes("sizes", "strings, keys, class names, containers and chains of all small sizes and around the powers of 128", sizes)
	shapes("offsets", "everything that has an offset, with filler that moves it across the lengths of varints", fars)

	values := func(name string, g heapGrammar) {
		r = append(r, Space{Name: name, What: fmt.Sprintf("all values of up to %d items, %s, encoded, decoded and encoded again", g.tokens, name), Prog: func(c *Ctx, t *T) {
			v := g.value(c)
			k := oneOf(c, cs)
			c.Ready()
			doc, err := k.marshal(nil, nil, v)
			if err != nil {
				t.Failf("%v: %s: %v", k, ref.Show(v), err)
				return
			}
			p17doc(nil, t, k, doc)
		}})
	}
	values("Go values and Perl types", heapGrammar{tokens: 5 + more, maxKids: 2, leaves: []interface{}{nil, "Cls"}, slices: true, maps: true, boxes: true, perl: true})
	values("Go pointers and Perl types", heapGrammar{tokens: 4 + more, maxKids: 2, leaves: []interface{}{"Cls"}, slices: true, maps: true, boxes: true, pslices: true, pmaps: true, perl: true, structs: true, strs: true, ppp: true})
	return r
}
