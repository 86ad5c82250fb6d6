package checks

import (
	"bytes"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/order"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P12", Spaces: p12, Assumptions: []string{
		"What a call does is compared with what the same call does on a new instance with the same settings; whether that is right is decided by the other properties.",
		"State kept between instances (the cache of struct tags, pools of compressors) is part of what both share.",
	}})
}

// types with hooks that work, fail or panic
type (
	hookOK    struct{ S string }
	hookBad   struct{ S string }
	hookPanic struct{ S string }
)

func (h hookOK) MarshalBinary() ([]byte, error)     { return []byte(h.S), nil }
func (h *hookOK) UnmarshalBinary(b []byte) error    { h.S = "thawed " + string(b); return nil }
func (h hookBad) MarshalBinary() ([]byte, error)    { return nil, errors.New("hook: no " + h.S) }
func (h *hookBad) UnmarshalBinary(b []byte) error   { return errors.New("hook: not " + string(b)) }
func (h hookPanic) MarshalBinary() ([]byte, error)  { panic("hook: " + h.S) }
func (h *hookPanic) UnmarshalBinary(b []byte) error { panic("hook: " + string(b)) }

// call is something that can be done with an encoder or decoder.
type call struct {
	name string
	// for encoders
	header interface{}
	value  interface{}
	hasHdr bool
	set    func(*config)
	// for decoders
	doc    []byte
	how    int
	into   reflect.Type
	mode   func(*ref.Mode)
	regist string
}

func (k *call) encode(e *sereal.Encoder) (doc []byte, err error) {
	err = safe(func() (err error) {
		order.Explore(nil, func() {
			if k.hasHdr {
				doc, err = e.MarshalWithHeader(k.header, k.value)
			} else {
				doc, err = e.Marshal(k.value)
			}
		})
		return
	})
	return
}

func encoderCalls() []*call {
	p := &map[string]interface{}{"key": "val"}
	q := &plainLink{}
	q.Next = &plainLink{Next: q}
	deep := interface{}(1)
	for i := 0; i < 6; i++ {
		deep = []interface{}{deep, "key"}
	}
	cyclic := []interface{}{"key", nil}
	cyclic[1] = cyclic
	var r []*call
	add := func(name string, v interface{}) { r = append(r, &call{name: name, value: v}) }
	add("7", 7)
	add("strings", []interface{}{"key", "key", []byte("key"), "val"})
	add("map", map[string]interface{}{"key": "val"})
	add("shared", []interface{}{p, p, &[]interface{}{p}})
	add("cycle", q)
	add("struct", []interface{}{plainLink{}, plainS1{"key"}})
	add("object", sereal.PerlObject{Class: "key", Reference: &[]interface{}{"key"}})
	add("frozen", []interface{}{hookOK{"key"}, hookOK{"x"}})
	add("long", strings.Repeat("key val ", 300))
	add("deep", deep)
	add("noise", noise(1100))
	add("channel", []interface{}{p, "key", make(chan int)})
	add("channel behind pointers", &[]interface{}{p, &[]interface{}{p, map[string]interface{}{"key": make(chan int)}}})
	add("failing hook", []interface{}{p, "key", "Cls", map[string]interface{}{"key": hookBad{"key"}}})
	add("panicking hook", []interface{}{p, "key", &[]interface{}{hookPanic{"key"}}})
	add("twin", reflect.New(twins[0]).Elem().Interface())
	add("twins", []interface{}{reflect.New(twins[1]).Interface(), reflect.New(twins[0]).Interface(), reflect.New(twins[2]).Elem().Interface()})
	add("function in field", struct{ F func() }{func() {}})
	add("integer keys", []interface{}{"key", map[int]string{1: "a"}})
	add("error in header", nil)
	r[len(r)-1].header, r[len(r)-1].hasHdr = []interface{}{"key", p, make(chan int)}, true
	add("header", []interface{}{"key", p})
	r[len(r)-1].header, r[len(r)-1].hasHdr = []interface{}{"key", p}, true
	add("cycle without pointers", cyclic)
	long := strings.Repeat("long key ", 40)
	add("long names", []interface{}{map[string]interface{}{long: long}, sereal.PerlObject{Class: long, Reference: map[string]interface{}{long[:40]: 1}}, sereal.PerlFreeze{Class: long[:40], Data: []byte("key")}})
	r = append(r,
		&call{name: "PerlCompat", set: func(k *config) { k.perl = !k.perl }},
		&call{name: "DisableDedup", set: func(k *config) { k.nodedup = !k.nodedup }},
		&call{name: "DisableFREEZE", set: func(k *config) { k.nofreeze = !k.nofreeze }},
		&call{name: "other compression", set: func(k *config) {
			if k.comp == 0 {
				k.comp = gen.SnappyIncr
			} else {
				k.comp = 0
			}
		}},
		&call{name: "zlib", set: func(k *config) { k.comp, k.level = gen.Zlib, 9-k.level }},
		&call{name: "threshold", set: func(k *config) { k.threshold = 1000 - k.threshold }},
	)
	return r
}

// structs of one field, as the order of fields varies
type plainLink struct{ Next *plainLink }
type plainS1 struct{ Name string }

func settings(e *sereal.Encoder, k config) {
	f := k.encoder()
	e.PerlCompat, e.DisableDedup, e.DisableFREEZE = f.PerlCompat, f.DisableDedup, f.DisableFREEZE
	e.ExpectedSize, e.CompressionThreshold, e.MaxRecursionDepth, e.Compression = f.ExpectedSize, f.CompressionThreshold, f.MaxRecursionDepth, f.Compression
}

func sameError(a, b error) bool {
	return (a == nil) == (b == nil) && (a == nil || a.Error() == b.Error() && isPanic(a) == isPanic(b))
}

func p12encode(t *T, k config, calls []*call) {
	e := k.encoder()
	var names []string
	var outs, copies [][]byte
	for _, c := range calls {
		names = append(names, c.name)
		if c.set != nil {
			c.set(&k)
			settings(e, k)
			continue
		}
		got, err := c.encode(e)
		want, werr := c.encode(k.encoder())
		if !sameError(err, werr) {
			t.Failf("%v: %s: %v, with a new encoder %v", k, strings.Join(names, ", "), err, werr)
			return
		}
		if err != nil {
			t.Count("errors")
			continue
		}
		t.Count("encoded")
		if !bytes.Equal(got, want) {
			t.Failf("%v: %s: %s, with a new encoder %s", k, strings.Join(names, ", "), hexdump(got), hexdump(want))
			return
		}
		outs, copies = append(outs, got), append(copies, clone(got))
	}
	for i := range outs {
		if !bytes.Equal(outs[i], copies[i]) {
			t.Failf("%v: %s: result %d changed from %s to %s", k, strings.Join(names, ", "), i, hexdump(copies[i]), hexdump(outs[i]))
		}
	}
}

func (k *call) decode(d *sereal.Decoder) (vs []interface{}, err error) {
	err = safe(func() error {
		var h, b interface{}
		switch k.how {
		case 0:
			p := reflect.New(k.into)
			err := d.Unmarshal(k.doc, p.Interface())
			if k.into.Kind() == reflect.Interface {
				vs = []interface{}{*p.Interface().(*interface{})}
			} else {
				vs = []interface{}{p.Interface()}
			}
			return err
		case 1:
			err := d.UnmarshalHeader(k.doc, &h)
			vs = []interface{}{h}
			return err
		case 2:
			err := d.UnmarshalHeaderBody(k.doc, &h, &b)
			vs = []interface{}{h, b}
			return err
		}
		return nil
	})
	return
}

var anyType = reflect.TypeOf((*interface{})(nil)).Elem()

func decoderCalls() []*call {
	var r []*call
	k := gen.Short
	add := func(name string, doc []byte, into interface{}) {
		typ := anyType
		if into != nil {
			typ = reflect.TypeOf(into)
		}
		r = append(r, &call{name: name, doc: doc, into: typ})
	}
	body := func(b ...[]byte) []byte { return rawDoc(3, cat(b...)) }
	shared := body([]byte{0x28, 0x2b, 3}, []byte{0xa8, 0x51}, k("a"), []byte{0x29, 4, 0x2e, 4})
	copies := body([]byte{0x42}, []byte{0x51}, k("a"), []byte{0x2f, 3, 0x2f, 2})
	objects := body([]byte{0x43, 0x2c}, k("Cls"), []byte{0x51}, k("a"), []byte{1, 0x2d, 3, 0x51}, k("b"), []byte{0x25, 0x32, 0x2f, 3, 0x28, 0x2b, 1}, k("ice"))
	obj := body([]byte{0x42, 0x2c}, k("Cls"), []byte{0x51}, k("a"), []byte{1, 0x2d, 3, 0x51}, k("b"), []byte{0x25})
	link := body([]byte{0xaa, 1}, k("Next"), []byte{0x29, 1})
	thaw := func(class string) []byte {
		return body([]byte{0x41, 0x32}, k(class), []byte{0x28, 0x2b, 1}, k("ice"))
	}
	add("7", body([]byte{7}), nil)
	add("shared", shared, nil)
	add("copies", copies, nil)
	add("copies into maps", copies, []interface{}{})
	add("objects", objects, nil)
	add("objects into maps", obj, []map[string]interface{}{})
	add("link", link, plainLink{})
	for _, typ := range twins {
		add("twin", body([]byte{0x52}, k("A"), []byte{7}, k("B"), k("x")), reflect.Zero(typ).Interface())
	}
	add("link as any", link, nil)
	add("strings", body([]byte{0x42}, k("a"), []byte{0x2f, 2}), []string{})
	add("thaw", thaw("main.hookOK"), []hookOK{})
	add("thaw any", thaw("main.hookOK"), nil)
	add("thaw bad", thaw("bad"), []hookBad{})
	add("thaw bad any", thaw("bad"), nil)
	add("thaw panic", body([]byte{0x42, 0xa8, 0x2b, 1, 7, 0x32}, k("panic"), []byte{0x28, 0x2b, 1}, k("ice")), nil)
	add("zlib", gen.Doc(3, gen.Zlib, nil, cat([]byte{0x42, 0xa8, 0x40, 0x29, 2})), nil)
	add("snappy", gen.Doc(2, gen.SnappyIncr, nil, cat([]byte{0x42}, k("a"), []byte{0x2f, 2})), nil)
	add("copy that breaks off", body([]byte{0x43, 0x51}, k("a"), []byte{0x2f, 2}, []byte{0x2f, 2, 0x2f, 9, 0x26, 9, 'x'}), nil)
	add("copy within a copy", body([]byte{0x43, 0x41, 0x2f, 1, 0x2f, 2}), nil)
	add("copy of the wrong type", body([]byte{0x42, 0x51}, k("a"), k("x"), []byte{0x2f, 2}), []map[string]int{})
	add("breaks off in references", body([]byte{0x43, 0xa8, 0xab, 1, 0x29, 2, 0x28, 0x2b, 9, 7}), nil)
	add("wrong type in references", body([]byte{0x2b, 2, 0xaa, 1}, k("Next"), []byte{7}, []byte{0x29, 3}), []*plainLink{})
	add("wrong reference", body([]byte{0x42, 0xa8, 0x41, 7, 0x29, 3}), nil)
	add("bad zlib", gen.Doc(3, gen.Zlib, nil, cat([]byte{0x42, 0x26, 100}, []byte(noise(100)), []byte{1}))[:60], nil)
	long := gen.Binary(strings.Repeat("long key ", 40))
	add("long names", body([]byte{0x43, 0x51}, long, []byte{0x2f, 3, 0x2c}, long, []byte{0x51, 0x2f, 3, 1, 0x51}, gen.Binary(strings.Repeat("k", 40)), []byte{2}), nil)
	add("no pointer", body([]byte{7}), make(chan int))
	add("nothing", nil, nil)
	head := gen.Doc(3, gen.Raw, []byte{0x42, 0xa8, 0x41, 7, 0x29, 2}, []byte{0x42, 0xa8, 0x41, 8, 0x29, 2})
	bad := gen.Doc(3, gen.Raw, []byte{0x42, 0xa8, 0x41, 7, 0x3e}, []byte{0x42, 0xa8, 0x41, 8, 0x29, 2})
	for _, how := range []int{1, 2} {
		r = append(r, &call{name: fmt.Sprint("header ", how), doc: head, how: how}, &call{name: fmt.Sprint("bad header ", how), doc: bad, how: how}, &call{name: fmt.Sprint("no header ", how), doc: shared, how: how})
	}
	r = append(r,
		&call{name: "PerlCompat", mode: func(m *ref.Mode) { m.PerlCompat = !m.PerlCompat }},
		&call{name: "DisableReferentialIntegrity", mode: func(m *ref.Mode) { m.NoRefs = !m.NoRefs }},
		&call{name: "RegisterName", regist: "main.hookOK"},
		&call{name: "RegisterName bad", regist: "bad"},
		&call{name: "RegisterName panic", regist: "panic"},
	)
	return r
}

func registered(d *sereal.Decoder, name string) {
	switch name {
	case "bad":
		d.RegisterName(name, &hookBad{})
	case "panic":
		d.RegisterName(name, &hookPanic{})
	default:
		d.RegisterName(name, &hookOK{})
	}
}

type reuse struct {
	t     *T
	m     ref.Mode
	d     *sereal.Decoder
	known []string
	names []string
	kept  [][2][]interface{}
}

func (u *reuse) do(c *call) bool {
	u.names = append(u.names, c.name)
	if c.mode != nil {
		c.mode(&u.m)
		u.d.PerlCompat, u.d.DisableReferentialIntegrity = u.m.PerlCompat, u.m.NoRefs
		return true
	}
	if c.regist != "" {
		u.known = append(u.known, c.regist)
		registered(u.d, c.regist)
		return true
	}
	got, err := c.decode(u.d)
	d := newDecoder(u.m)
	for _, k := range u.known {
		registered(d, k)
	}
	want, werr := c.decode(d)
	if !sameError(err, werr) {
		u.t.Failf("%s: %s: %v, with a new decoder %v", modeName(u.m), strings.Join(u.names, ", "), err, werr)
		return false
	}
	if err != nil {
		u.t.Count("errors")
		return true
	}
	u.t.Count("decoded")
	if err := deepSame(want, got); err != nil {
		u.t.Failf("%s: %s: %v", modeName(u.m), strings.Join(u.names, ", "), err)
		return false
	}
	u.kept = append(u.kept, [2][]interface{}{want, got})
	return true
}

// still checks that results have not been changed by later calls.
func (u *reuse) still() {
	for i, k := range u.kept {
		if err := deepSame(k[0], k[1]); err != nil {
			u.t.Failf("%s: %s: result %d has changed: %v", modeName(u.m), strings.Join(u.names, ", "), i, err)
		}
	}
}

func p12(thorough bool) []Space {
	var r []Space
	enc := encoderCalls()
	configs := []config{{version: 1}, {version: 2, perl: true}, {version: 3}, {version: 3, depth: 5, perl: true}, {depth: 6}, {version: 1, comp: gen.Snappy}, {version: 2, comp: gen.SnappyIncr, threshold: 1000}, {version: 3, comp: gen.Zlib}, {version: 3, comp: gen.Zlib, level: 9, nodedup: true, expected: 100}}
	n := 3
	if thorough {
		n = 4
	}
	r = append(r, Space{Name: "encoder", What: fmt.Sprintf("all sequences of %d out of %d calls and settings that succeed, fail or panic, on one encoder of %d", n, len(enc), len(configs)), Prog: func(c *Ctx, t *T) {
		k := oneOf(c, configs)
		var calls []*call
		for i := 0; i < n; i++ {
			x := oneOf(c, enc)
			if x.name == "cycle without pointers" && k.depth == 0 {
				x = enc[0]
			}
			calls = append(calls, x)
		}
		c.Ready()
		p12encode(t, k, calls)
		t.Sample(func() string { return fmt.Sprint(k, calls[0].name, calls[1].name, calls[2].name) })
	}})
	dec := decoderCalls()
	r = append(r, Space{Name: "decoder", What: fmt.Sprintf("all sequences of %d out of %d calls and settings that succeed, fail or panic, on one decoder", n, len(dec)), Prog: func(c *Ctx, t *T) {
		u := &reuse{t: t, m: oneOf(c, modes)}
		u.d = newDecoder(u.m)
		var calls []*call
		for i := 0; i < n; i++ {
			k := oneOf(c, dec)
			calls = append(calls, k)
		}
		c.Ready()
		for _, k := range calls {
			if !u.do(k) {
				return
			}
		}
		u.still()
	}})
	r = append(r, Space{Name: "deep", What: "documents that nest deeply, that break off there, and that nest too deeply, three in a row", Prog: func(c *Ctx, t *T) {
		u := &reuse{t: t, m: oneOf(c, []ref.Mode{{}, {PerlCompat: true, NoRefs: true}})}
		u.d = newDecoder(u.m)
		var calls []*call
		for i := 0; i < 3; i++ {
			n := oneOf(c, []int{80000, 140000})
			end := oneOf(c, [][]byte{{7}, {0x3e}})
			calls = append(calls, &call{name: fmt.Sprint("depth ", n), doc: rawDoc(3, cat(bytes.Repeat([]byte{0x28, 0x2b, 1}, n), end)), into: anyType})
		}
		c.Ready()
		for _, k := range calls {
			if !u.do(k) {
				return
			}
			u.kept = nil
		}
	}})
	probes := decoderCalls()[:6]
	probes = append(probes, decoderCalls()[16:20]...)
	after := func(s byteSpace, typed bool) {
		name := "after " + s.name
		if typed {
			name += " as something else"
		}
		r = append(r, Space{Name: name, What: s.what + "; each decoded by a decoder that then decodes 10 other documents", Prog: func(c *Ctx, t *T) {
			b := s.body(c)
			m := oneOf(c, modes)
			into := anyType
			if typed {
				into = oneOf(c, []reflect.Type{reflect.TypeOf(map[string]interface{}{}), reflect.TypeOf([]interface{}{}), reflect.TypeOf(node{})})
			}
			c.Ready()
			first := &call{name: hexdump(b), doc: rawDoc(3, b), into: into}
			for _, p := range probes {
				u := &reuse{t: t, m: m, d: newDecoder(m)}
				first.decode(u.d)
				u.names = append(u.names, first.name)
				if !u.do(p) {
					return
				}
			}
		}})
	}
	after(damaged(seeds()), false)
	after(damaged(seeds()[6:18]), true)
	tokens := 3
	if thorough {
		tokens = 4
		after(twice(seeds(), refBytes), false)
		after(wordsOver("few tags", fewTagBytes, 4), false)
	}
	after(wild(withTokens(anyGrammar, tokens)), false)
	after(cut(withTokens(anyGrammar, tokens)), false)

	// encoders after a failure at any point
	g := heapGrammar{tokens: 4, maxKids: 2, leaves: []interface{}{"key", hookBad{"x"}, hookPanic{"y"}, hookOK{"key"}}, slices: true, maps: true, boxes: true, pmaps: true, perl: true}
	if thorough {
		g.tokens = 5
	}
	if !order.Hooked {
		g.maxKids = 1
	}
	later := encoderCalls()[1:9]
	r = append(r, Space{Name: "encoder after", What: fmt.Sprintf("all graphs of at most %d values some of which fail or panic; each encoded by an encoder that then encodes %d other values", g.tokens, len(later)), Prog: func(c *Ctx, t *T) {
		v := g.value(c)
		k := oneOf(c, []config{{version: 1, perl: true}, {version: 3, depth: 3}, {version: 3, comp: gen.Zlib}})
		c.Ready()
		for _, l := range later {
			p12encode(t, k, []*call{{name: fmt.Sprintf("%#v", v), value: v}, l})
		}
	}})
	return append(r, p12worn(thorough)...)
}
