package checks

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P11", Spaces: p11, Assumptions: []string{
		"A merger is compared with a fresh one that is given only the documents that the first has taken; whether the merged document is right is decided by P10.",
		"Where Finish fails (as version 2 has no zlib), only that it fails each time is checked.",
	}})
}

// history drives a merger and notes what should come of it.
type history struct {
	t        *T
	make     func() *sereal.Merger
	m        *sereal.Merger
	name     string
	steps    []string
	taken    [][]byte
	finished bool
	out      []byte
}

func newHistory(t *T, name string, f func() *sereal.Merger) *history {
	return &history{t: t, make: f, m: f(), name: name}
}

func historyNo(t *T, i int) *history {
	return newHistory(t, mergerName(i), func() *sereal.Merger { return newMerger(i) })
}

func (h *history) fail(f string, a ...interface{}) {
	h.t.Failf("Merger %s: %s: %s", h.name, strings.Join(h.steps, ", "), fmt.Sprintf(f, a...))
}

// append tells whether the document was taken.
func (h *history) append(doc []byte) bool {
	h.steps = append(h.steps, "Append "+hexdump(doc))
	mine := clone(doc)
	err := safe(func() error { _, err := h.m.Append(mine); return err })
	if isPanic(err) {
		h.fail("%v", err)
	}
	for i := range mine { // it must not be needed any more
		mine[i] ^= 0x55
	}
	if h.finished {
		if err == nil {
			h.fail("no error after Finish")
		}
		return false
	}
	if err == nil {
		h.taken = append(h.taken, doc)
	}
	return err == nil
}

func finishOf(m *sereal.Merger) (out []byte, err error) {
	err = safe(func() (err error) { out, err = m.Finish(); return })
	return
}

func (h *history) finish() {
	h.steps = append(h.steps, "Finish")
	out, err := finishOf(h.m)
	if err == nil && h.finished {
		if !bytes.Equal(out, h.out) {
			h.fail("%s, but before %s", hexdump(out), hexdump(h.out))
		}
		return
	}
	other := h.make()
	for _, d := range h.taken {
		if _, err := other.Append(clone(d)); err != nil {
			h.fail("a merger that is given only what was taken refuses: %v", err)
			return
		}
	}
	want, werr := finishOf(other)
	if isPanic(err) || (err == nil) != (werr == nil) {
		h.fail("%v, for a merger that is given only what was taken %v", err, werr)
		return
	}
	if err != nil {
		return
	}
	h.finished, h.out = true, clone(out)
	if !bytes.Equal(out, want) {
		a, e1 := ref.Parse(out)
		b, e2 := ref.Parse(want)
		if e1 == nil && e2 == nil {
			if err = ref.SameParsed(b.Body, a.Body); err == nil {
				h.t.Count("the same in other bytes")
				return
			}
		}
		h.fail("%s, for a merger that is given only what was taken %s (%v, %v, %v)", hexdump(out), hexdump(want), err, e1, e2)
		return
	}
	if len(h.taken) == 0 {
		d, err := ref.Parse(out)
		n := d.Body
		if err == nil && h.m.TopLevelElement != sereal.TopLevelArray {
			if n.Kind != ref.Ref {
				h.fail("%s is not a reference", hexdump(out))
				return
			}
			n = n.Kids[0]
		}
		if err != nil || n.Kind != ref.Array || len(n.Kids) != 0 {
			h.fail("empty, but %s (%v)", hexdump(out), err)
		}
	}
}

func p11(thorough bool) []Space {
	var r []Space
	goods := [][]byte{
		rawDoc(3, cat([]byte{0x43, 0x52}, gen.Short("s"), gen.Short("Cls"), gen.UTF8("b"), gen.Binary("xyz"), []byte{0x2c}, gen.Short("Cls"), []byte{0x51}, gen.Short("a"), []byte{1, 8})),
		rawDoc(3, cat([]byte{0x2b, 2, 0xab, 1, 0x29, 3}, []byte{0x32}, gen.Short("k"), []byte{0x28, 0x2b, 1}, gen.Short("Cls"))),
	}
	// what follows uses all the strings of the seeds
	all := rawDoc(3, cat([]byte{0x2b, 4, 0x2a, 7},
		gen.Short("a"), gen.Short("Cls"), gen.Short("b"), gen.Short("xyz"), gen.Short("k"), gen.UTF8("b"), gen.Short("s"), gen.UTF8("xyz"), gen.Short("re"), gen.Short("msx"), gen.Short("c"), gen.Short("key"), gen.Short("self"), gen.Short("k"),
		[]byte{0x2c}, gen.Short("k"), []byte{1}, []byte{0x2c}, gen.Short("b"), []byte{1}, []byte{0x2c}, gen.Short("Cls"), []byte{0x28, 0xa8, 0x41, 9}))
	try := func(t *T, i, where int, bad []byte) {
		h := historyNo(t, i)
		if where != 1 {
			h.append(goods[where>>1])
		}
		took := h.append(bad)
		h.append(all)
		if where > 0 {
			h.append(bad)
			h.append(goods[0])
		}
		h.finish()
		h.finish()
		if took {
			t.Count("taken")
		} else {
			t.Count("refused")
		}
		t.Sample(func() string { return h.name + ": " + strings.Join(h.steps, ", ") })
	}
	body := func(s byteSpace, settings []int) {
		r = append(r, Space{Name: s.name, What: s.what + "; each appended between good documents that have all its strings, in 3 places", Prog: func(c *Ctx, t *T) {
			b := s.body(c)
			i := oneOf(c, settings)
			where := c.Choose(3)
			c.Ready()
			try(t, i, where, rawDoc(3, b))
		}})
	}
	every := ints([2]int{0, 15})
	some := []int{0, 7, 4, 11}
	if thorough {
		body(damaged(seeds()), every)
		body(twice(seeds(), fewTagBytes), some)
		body(cut(withTokens(anyGrammar, 4)), some)
		body(wild(withTokens(anyGrammar, 3)), every)
		body(wordsOver("few tags", fewTagBytes, 4), some)
	} else {
		body(damaged(seeds()), some)
		body(twice(seeds(), refBytes), []int{0, 7})
		body(cut(withTokens(anyGrammar, 3)), []int{2, 13})
		body(wild(withTokens(anyGrammar, 3)), []int{5})
		body(wordsOver("few tags", fewTagBytes, 3), some)
	}

	// strings of the bad document, then strings of the good one
	strs := [][]byte{gen.Short("k"), gen.Short("kk"), gen.UTF8("kk"), gen.Binary("kk"), gen.Short("x"), {0x2f, 3}, {0x2f, 2}, {0x01}}
	r = append(r, Space{Name: "strings", What: "hashes and lists of up to 4 strings and copies that break off, then the same complete", Prog: func(c *Ctx, t *T) {
		open := oneOf(c, [][]byte{{0x2a, 2}, {0x52}, {0x2b, 4}, {0x28, 0x2a, 2}, {0x43, 0x2c}, {0x42, 0x31}, {0x2c}})
		b := clone(open)
		n := 3
		if thorough {
			n = 4
		}
		for k := c.Choose(n + 1); k > 0; k-- {
			b = append(b, oneOf(c, strs)...)
		}
		end := oneOf(c, [][]byte{{}, {0x38}, {0x2f, 0x70}, {0x26, 9}, {0x7f}, {0x2b, 2, 1}, {0x29, 0x70}})
		i := oneOf(c, some)
		c.Ready()
		h := historyNo(t, i)
		h.append(goods[0])
		h.append(rawDoc(3, cat(b, end)))
		h.append(rawDoc(3, cat([]byte{0x2b, 5}, strs[0], strs[1], strs[2], strs[3], []byte{0x2a, 5}, strs[0], strs[1], strs[1], strs[2], strs[2], strs[3], strs[3], strs[4], strs[4], strs[0])))
		h.finish()
		h.finish()
	}})

	// headers and compressed documents
	long := cat([]byte{0x2b, 2}, gen.Binary(strings.Repeat("ab", 100)), gen.Short("Cls"))
	r = append(r, Space{Name: "headers", What: "documents of all versions and types, with any byte of the header or of the compressed body changed, or cut off, between good ones", Prog: func(c *Ctx, t *T) {
		w := oneOf(c, wrappings())
		doc := clone(w.doc(long))
		if c.Bool() {
			doc = doc[:c.Choose(len(doc))]
		} else {
			at := c.Choose(len(doc))
			if thorough {
				doc[at] ^= byte(1 + c.Choose(255))
			} else {
				doc[at] ^= oneOf(c, []byte{1, 2, 4, 8, 16, 32, 64, 128, 0x30, 255})
			}
		}
		i := oneOf(c, some)
		c.Ready()
		if w.version <= 2 && len(doc) > 5 && doc[4]>>4 == 0 {
			t.Count("without compression")
		}
		try(t, i, 0, doc)
	}})

	// histories
	bads := [][]byte{
		nil,
		[]byte("=srl"),
		{0x3d, 0xf3, 0x72, 0x6c, 0x05, 0x00, 0x01},
		{0x3d, 0xf3, 0x72, 0x6c, 0x03, 0x00},
		rawDoc(3, cat([]byte{0x52}, gen.Short("key"), gen.Short("val"), gen.Short("new"), []byte{0x2f, 0x60})),
		rawDoc(3, cat([]byte{0x43, 0x2c}, gen.Short("Cls"), []byte{0x28, 0x2b, 1}, gen.Short("new"))),
		gen.Doc(3, gen.Zlib, nil, long)[:20],
		rawDoc(3, cat([]byte{0x28, 0x2b, 3, 7, 0x51}, gen.Short("key"), gen.Short("new"), []byte{0x3e})),
	}
	nice := append(mergeable()[3:7], rawDoc(3, cat([]byte{0x52}, gen.Short("new"), gen.Short("key"), gen.Short("key"), gen.Short("new"))), rawDoc(3, gen.Binary(noise(1100))))
	makers := func(i int) (string, func() *sereal.Merger) {
		if i < 16 {
			return mergerName(i), func() *sereal.Merger { return newMerger(i) }
		}
		k := []config{{comp: gen.SnappyIncr}, {comp: gen.Zlib}, {version: 2, comp: gen.Zlib}, {comp: gen.Snappy}}[i&3]
		k.threshold = []int{0, 1, 1 << 20}[i/4%3]
		return fmt.Sprintf("V2=%v %v threshold %d", k.version == 2, k, k.threshold), func() *sereal.Merger {
			m := sereal.NewMerger()
			if k.version == 2 {
				m = sereal.NewMergerV2()
			}
			m.Compression = config{version: 3, comp: k.comp}.encoder().Compression
			m.CompressionThreshold = k.threshold
			return m
		}
	}
	longest := 4
	if thorough {
		longest = 5
	}
	r = append(r, Space{Name: "histories", What: fmt.Sprintf("all sequences of up to %d calls out of Finish and Append of %d good and %d bad documents, by 28 mergers", longest, len(nice), len(bads)), Prog: func(c *Ctx, t *T) {
		n := c.Choose(longest + 1)
		steps := make([]int, n)
		for k := range steps {
			steps[k] = c.Choose(1 + len(nice) + len(bads))
		}
		i := c.Choose(28)
		if !thorough && n == 4 && i%5 != 2 {
			c.Ready()
			return
		}
		c.Ready()
		name, f := makers(i)
		h := newHistory(t, name, f)
		for _, k := range steps {
			switch {
			case k == 0:
				h.finish()
			case k <= len(nice):
				h.append(nice[k-1])
			default:
				if h.append(bads[k-1-len(nice)]) {
					h.fail("taken")
				}
			}
		}
		h.finish()
		if h.append(nice[0]) && h.finished {
			h.fail("taken after Finish")
		}
		h.finish()
		t.Count(fmt.Sprintf("%d calls", n))
	}})
	return append(r, p11worn(thorough, nice, bads)...)
}
