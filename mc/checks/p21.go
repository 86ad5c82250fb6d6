package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/order"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P21", Spaces: p21, Assumptions: []string{
		"Strings count as the same if their text and, for mergers, their tag and length are the same. Keys and class names are judged apart from each other.",
		"Not asked of the merger: strings with F bits, strings of less than two bytes, strings inside regexps, and, with DedupeStrings, values in documents that copy more than strings (a COPY may not repeat a COPY).",
	}})
}

// p21encoded checks which strings an encoder's document spells out.
func p21encoded(c *Ctx, t *T, k config, header, v interface{}) {
	doc, err := k.marshal(c, header, v)
	if err != nil {
		t.Failf("%v: %s: %v", k, ref.Show(v), err)
		return
	}
	p03doc(t, k, header, v, doc)
	if t.Failed() {
		return
	}
	t.Sample(func() string { return fmt.Sprintf("%v: %s is %s", k, ref.Show(v), hexdump(doc)) })
	d, err := ref.Parse(doc)
	if err != nil {
		return // told by p03doc
	}
	judge := func(where string, l *ref.Layout, err error) {
		if err == nil {
			err = p21layout(t, k, l)
		}
		if err != nil {
			t.Failf("%v: %s is encoded as %s: %s: %v", k, ref.Show(v), hexdump(doc), where, err)
		}
	}
	l, err := d.Layout()
	judge("body", l, err)
	if len(d.Suffix) > 1 {
		l, err = ref.LayoutOf(d.Suffix[1:], -1)
		judge("header", l, err)
	}
}

func p21layout(t *T, k config, l *ref.Layout) error {
	if k.nodedup {
		if len(l.Copies) > 0 {
			return fmt.Errorf("COPY at %d with DisableDedup", l.Copies[0].Off)
		}
		t.Count("no dedup")
		return nil
	}
	seen := map[ref.Role]map[string]int{ref.KeyRole: {}, ref.ClassRole: {}}
	for _, s := range l.Strings {
		if m := seen[s.Role]; m != nil {
			if at, ok := m[s.Text]; ok {
				return fmt.Errorf("%v %q is spelled out at %d and again at %d", s.Role, s.Text, at, s.Off)
			}
			m[s.Text] = s.Off
		}
	}
	t.Count(map[bool]string{true: "with copies", false: "without copies"}[len(l.Copies) > 0])
	return nil
}

// p21merged merges documents and checks which strings come out. A nil document
// is one that the merger must refuse.
func p21merged(t *T, i int, docs ...[]byte) {
	g := mergingNo(t, i)
	dedupe := i&4 != 0
	values := map[string]int{}
	copies := 0
	for _, doc := range docs {
		if doc == nil {
			// fails at its end, after strings that the others have, too
			bad := cat([]byte{0x46}, gen.Short("bb"), gen.UTF8("bb"), gen.Short("dd"), []byte{0x51}, gen.Short("key"), []byte{0}, []byte{0x2c}, gen.Short("Cls"), []byte{0x51}, gen.UTF8("key"), gen.UTF8("dd"), []byte{0x29, 3})
			if _, err := g.m.Append(rawDoc(3, bad)); err == nil {
				g.fail("takes a document with an offset that leads nowhere")
				return
			}
			continue
		}
		d, err := ref.Parse(doc)
		if !g.asked(d, err) {
			t.Count(unsettled(d, err))
			return
		}
		l, err := d.Layout()
		if err != nil {
			g.fail("%v", err)
			return
		}
		for _, c := range l.Copies {
			if c.Role == ref.ValueRole {
				copies++
			}
			if dedupe && !c.OfString {
				t.Count("copies more than strings")
				return
			}
		}
		for _, s := range l.Strings {
			if s.Role == ref.ValueRole {
				values[s.Raw]++
			}
		}
		g.add(doc, d)
		if t.Failed() {
			return
		}
	}
	out := g.finish()
	if t.Failed() {
		return
	}
	d, err := ref.Parse(out)
	if err != nil {
		return
	}
	l, err := d.Layout()
	if err != nil {
		g.fail("%v", err)
		return
	}
	seen := [2]map[string]int{{}, {}}
	for _, s := range l.Strings {
		table := 0
		switch {
		case s.Role == ref.ClassRole:
			table = 1
		case s.Role == ref.RegexpRole, len(s.Raw) <= 2 || s.Tracked:
			if s.Role == ref.ValueRole {
				values[s.Raw]--
			}
			continue
		case s.Role == ref.ValueRole && !dedupe:
			values[s.Raw]--
			continue
		}
		raw := s.Raw
		if s.Tracked {
			raw += "!"
		}
		if at, ok := seen[table][raw]; ok {
			g.fail("merged into %s: %v %q is spelled out at %d and again at %d", hexdump(out), s.Role, s.Text, at, s.Off)
			return
		}
		seen[table][raw] = s.Off
	}
	if !dedupe {
		for s, n := range values {
			if n != 0 {
				g.fail("merged into %s: %d fewer values % x without DedupeStrings", hexdump(out), n, s)
				return
			}
		}
		for _, c := range l.Copies {
			if c.Role == ref.ValueRole {
				copies--
			}
		}
		if copies != 0 {
			g.fail("merged into %s: %d fewer copied values", hexdump(out), copies)
			return
		}
	}
	t.Count("merged")
	t.Sample(func() string { return fmt.Sprintf("%s: merged into %s", g.name, hexdump(out)) })
}

type (
	p21A struct {
		Key interface{} `sereal:"key"`
		A   interface{}
	}
	p21B struct {
		K interface{} `sereal:"key"`
		B string      `sereal:"A"`
	}
)

// p21gen makes values in which few names come again and again.
type p21gen struct {
	c    *Ctx
	left int
}

func (g *p21gen) value() interface{} {
	g.left--
	leaves := []interface{}{"key", 1}
	n := len(leaves)
	if g.left <= 0 {
		return leaves[g.c.Choose(n)]
	}
	switch i := g.c.Choose(n + 10); i - n {
	case 0:
		return map[string]interface{}{"key": g.value()}
	case 1:
		return map[string]interface{}{"": g.value(), "key": g.value()}
	case 2:
		return p21A{g.value(), g.value()}
	case 3:
		return &p21B{g.value(), "A"}
	case 4:
		return &sereal.PerlObject{Class: "key", Reference: []interface{}{g.value()}}
	case 5:
		return sereal.PerlObject{Class: "p21A", Reference: map[string]interface{}{"p21A": g.value()}}
	case 6:
		return []interface{}{g.value(), g.value()}
	case 7:
		return myKeyMap{"A": g.value()}
	case 8:
		return sereal.PerlFreeze{Class: "key", Data: []byte("key")}
	case 9:
		return hString("key")
	default:
		return leaves[i]
	}
}

func p21(thorough bool) (r []Space) {
	more := 0
	if thorough {
		more = 1
	}
	ks := []config{{version: 3}, {version: 3, perl: true}, {version: 2, nodedup: true}, {version: 1}, {version: 3, nofreeze: true, expected: 100}}
	r = append(r, Space{Name: "names", What: fmt.Sprintf("all values of at most %d parts with maps, structs, Perl objects and frozen values that share keys and class names, all orders of map keys, %d encoders", 4+more, len(ks)), Prog: func(c *Ctx, t *T) {
		v := (&p21gen{c: c, left: 4 + more}).value()
		k := oneOf(c, ks)
		order.Repeat(c)
		c.Ready()
		p21encoded(c, t, k, nil, v)
	}})
	r = append(r, Space{Name: "headers", What: fmt.Sprintf("the same of at most %d parts as header and as body, 2 encoders", 3), Prog: func(c *Ctx, t *T) {
		a := (&p21gen{c: c, left: 3}).value()
		b := (&p21gen{c: c, left: 2 + more}).value()
		k := oneOf(c, ks[:2])
		c.Ready()
		p21encoded(nil, t, k, a, b)
	}})
	for _, sp := range typedSpaces(false, func(c *Ctx, t *T, k config, v reflect.Value) { p21encoded(c, t, k, nil, v.Interface()) }) {
		if !thorough && (sp.Name == "typed sizes" || strings.HasPrefix(sp.Name, "structs")) {
			continue
		}
		sp.Name = "typed " + sp.Name
		r = append(r, sp)
	}
	lens := append(ints([2]int{0, 40}, [2]int{125, 131}, [2]int{16382, 16386}), 70000)
	r = append(r, Space{Name: "lengths", What: "keys and class names of many lengths at many distances, all configurations of encoders", Prog: func(c *Ctx, t *T) {
		n := oneOf(c, lens)
		far := oneOf(c, []int{0, 1, 120, 128, 16380, 16384, 70000})
		how := c.Choose(5)
		k := oneOf(c, allConfigs)
		if !thorough && (n > 200 || far > 200) && (k.expected != 0 || k.comp != 0) {
			c.Ready()
			return
		}
		c.Ready()
		key := strings.Repeat("k", n)
		var v interface{} = map[string]interface{}{key: 1}
		switch how {
		case 1:
			v = map[string]int{key: 1}
		case 2:
			v = sereal.PerlObject{Class: key, Reference: []interface{}{}}
		case 3:
			v = sereal.PerlFreeze{Class: key}
		case 4: // the type's name instead of the key
			v = []interface{}{hString(key), p21A{}, struct{}{}}
		}
		p21encoded(nil, t, k, nil, []interface{}{v, filled(far), v, &v, v})
	}})

	// merging
	merge := func(name string, g gen.Grammar) {
		r = append(r, Space{Name: "merge: " + name, What: fmt.Sprintf("all documents of at most %d items of the grammar %s, merged twice, and again after a failed Append, by 16 mergers", g.Tokens, name), Prog: func(c *Ctx, t *T) {
			g := g
			g.Base, g.Keys = 1, "kk"
			doc := rawDoc(3, g.Body(c))
			i := c.Choose(16)
			how := c.Choose(3)
			c.Ready()
			switch how {
			case 0:
				p21merged(t, i, doc, doc)
			case 1:
				p21merged(t, i, nil, doc, doc)
			case 2:
				p21merged(t, i, doc, nil, doc, nil)
			}
		}})
	}
	some := [][]byte{gen.Short("bb"), gen.UTF8("bb"), gen.Binary("bb"), gen.Short("b")}
	merge("everything", gen.Grammar{Tokens: 3 + more, MaxKids: 2, Leaves: some, Array: true, Hash: true, Inline: true, Refn: true, Refp: true, Alias: true, Copy: true, Object: true, Freeze: true, Weak: true, Regexp: true, Pad: true})
	merge("hashes", gen.Grammar{Tokens: 4 + more, MaxKids: 2, Leaves: some[:1], Hash: true, Inline: true, Object: true, Copy: true})
	merge("strings", gen.Grammar{Tokens: 4 + more, MaxKids: 3, Leaves: append(some, gen.Short(""), gen.Binary(""), gen.UTF8("b")), Array: true, Copy: true, Refn: true})
	merge("objects", gen.Grammar{Tokens: 5 + more, MaxKids: 2, Leaves: some[:1], Array: true, Hash: true, Object: true, Freeze: true})
	list := mergeable()
	r = append(r, Space{Name: "merge three", What: fmt.Sprintf("all sequences of three out of %d documents with shared keys, classes, references and strings, and failures between them, by 16 mergers", len(list)), Prog: func(c *Ctx, t *T) {
		i := c.Choose(16)
		var docs [][]byte
		for n := 0; n < 3; n++ {
			if d := c.Choose(len(list) + 1); d > 0 {
				docs = append(docs, list[d-1])
			} else {
				docs = append(docs, nil)
			}
		}
		c.Ready()
		p21merged(t, i, docs...)
	}})
	r = append(r, Space{Name: "merge: lengths", What: "strings as keys, class names and values, of many lengths and in all forms, merged at many distances by 16 mergers", Prog: func(c *Ctx, t *T) {
		n := oneOf(c, lens)
		form := c.Choose(3)
		far := oneOf(c, []int{0, 1, 120, 128, 16380, 16384, 70000})
		i := c.Choose(16)
		if form == 0 && n > 31 {
			c.Ready()
			return
		}
		c.Ready()
		s := string(filled(n))
		str := [][]byte{gen.Binary(s), gen.UTF8(s)}[form&1]
		if form == 0 {
			str = gen.Short(s)
		} else if form == 2 {
			str = gen.Binary(s)
		}
		docs := [][]byte{rawDoc(3, cat([]byte{0x44}, str, []byte{0x51}, str, []byte{1, 0x2c}, str, []byte{0x50}, str))}
		p21merged(t, i, docs[0], rawDoc(3, gen.Binary(string(filled(far)))), docs[0])
	}})
	return r
}
