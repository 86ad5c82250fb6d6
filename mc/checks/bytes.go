package checks

import (
	"fmt"

	"verif/mc/gen"
)

// byteSpace yields bodies, one for each sequence of choices.
type byteSpace struct {
	name string
	what string
	body func(c *Ctx) []byte
}

// tagBytes are one or two of each kind of tag, and what may follow as lengths
// and offsets.
var tagBytes = []byte{
	0x00, 0x01, 0x02, 0x03, 0x07, 0x1f, 0x20, 0x21, 0x22, 0x25, 0x26, 0x27, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f,
	0x30, 0x31, 0x32, 0x33, 0x34, 0x39, 0x3a, 0x3e, 0x3f, 0x40, 0x41, 0x42, 0x51, 0x60, 0x61, 0x7f,
	0x80, 0x81, 0xa8, 0xab, 0xc1, 0xe1, 0xff,
}

var fewTagBytes = []byte{0x01, 0x02, 0x04, 0x25, 0x26, 0x28, 0x29, 0x2a, 0x2b, 0x2c, 0x2d, 0x2e, 0x2f, 0x30, 0x31, 0x32, 0x33, 0x3f, 0x41, 0x42, 0x51, 0x61, 0xa8, 0xab, 0xe1}

var refBytes = []byte{0x01, 0x02, 0x03, 0x04, 0x05, 0x28, 0x29, 0x2e, 0x2f, 0x42, 0x51, 0x61, 0xa8, 0xe1}

func wordsOver(name string, alphabet []byte, n int) byteSpace {
	return byteSpace{name, fmt.Sprintf("all bodies of at most %d bytes out of %d", n, len(alphabet)), func(c *Ctx) []byte {
		l := c.Choose(n + 1)
		b := make([]byte, l)
		for i := range b {
			b[i] = alphabet[c.Choose(len(alphabet))]
		}
		return b
	}}
}

func allBytes() []byte {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}

// seeds are valid bodies (with offsets that count from 1) that together have
// every tag.
func seeds() [][]byte {
	k := gen.Short
	return [][]byte{
		{0x2b, 3, 1, 0x1f, 0x25},
		cat([]byte{0x45}, gen.VarintItem(300), gen.ZigzagItem(-300), gen.Float32(1.5), gen.Float64(2.5), []byte{0x39}),
		cat([]byte{0x2a, 2}, k("a"), []byte{1}, gen.UTF8("b"), []byte{0x3a}),
		cat([]byte{0x52}, k("a"), gen.Binary("xyz"), gen.Binary("b"), gen.UTF8("xyz")),
		{0x42, 0xa8, 0x41, 7, 0x29, 2},      // REFP
		{0x42, 0xa8, 0x2b, 1, 7, 0x29, 2},   // REFP
		{0x42, 0xc1, 7, 0x2e, 2},            // ALIAS
		{0x43, 0x61, 'x', 0x2f, 2, 0x2f, 2}, // COPY
		{0x42, 0x41, 7, 0x2f, 2},            // COPY of a container
		{0x28, 0xab, 1, 0x29, 2},            // a cycle
		{0xc1, 0x29, 1},                     // another
		cat([]byte{0x28, 0xaa, 1}, k("s"), []byte{0x29, 2}),
		cat([]byte{0x42, 0x2c}, k("Cls"), []byte{0x51}, k("a"), []byte{1, 0x2d, 3, 0x51, 0x2f, 8, 2}),
		cat([]byte{0x42, 0x32}, k("Cls"), []byte{0x28, 0x2b, 1}, k("dat"), []byte{0x33, 3, 0x28, 0x2b, 1}, gen.Binary("x")),
		cat([]byte{0x42, 0x31}, k("re"), k("i"), []byte{0x31, 0x2f, 3}, gen.UTF8("msx")),
		cat([]byte{0x42, 0xa8, 0x2b, 0, 0x30, 0x29, 2}),
		cat([]byte{0x3f, 0x52, 0x3f}, k("a"), []byte{0x3f, 0x3f, 1, 0x3f}, k("b"), []byte{0x30, 0x28, 0x3f, 0x25}),
		cat([]byte{0x53}, k("a"), []byte{0x28, 0x28, 1}, k("b"), []byte{0x2b, 2, 0x40, 0x50}, k("c"), []byte{0x2a, 1, 0x2f, 3, 0x3b}),
		cat([]byte{0x2c}, k("Cls"), []byte{0x28, 0x2a, 1}, k("self"), []byte{0x25}),
		cat([]byte{0x2a, 1}, gen.Binary(filled(40)), gen.UTF8(filled(130))),
		cat([]byte{0x2b}, []byte{20}, []byte(filledInts(20))),
	}
}

func filledInts(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i & 15)
	}
	return string(b)
}

// damaged yields the seeds with one byte changed, removed or added, or cut off.
func damaged(seeds [][]byte) byteSpace {
	return byteSpace{"damaged", "valid bodies with all tags, with any byte changed to any other, removed, inserted before, or with the rest cut off", func(c *Ctx) []byte {
		s := clone(oneOf(c, seeds))
		switch c.Choose(4) {
		case 0:
			s[c.Choose(len(s))] = byte(c.Choose(256))
		case 1:
			i := c.Choose(len(s))
			s = append(s[:i], s[i+1:]...)
		case 2:
			i := c.Choose(len(s) + 1)
			v := byte(c.Choose(256))
			s = append(s[:i], append([]byte{v}, s[i:]...)...)
		case 3:
			s = s[:c.Choose(len(s))]
		}
		return s
	}}
}

// twice yields the seeds with two bytes changed to tag bytes.
func twice(seeds [][]byte, alphabet []byte) byteSpace {
	return byteSpace{"damaged twice", fmt.Sprintf("valid bodies with any two bytes changed to any of %d", len(alphabet)), func(c *Ctx) []byte {
		s := clone(oneOf(c, seeds))
		if len(s) < 2 || len(s) > 30 {
			return s
		}
		i := c.Choose(len(s) - 1)
		j := i + 1 + c.Choose(len(s)-1-i)
		s[i] = alphabet[c.Choose(len(alphabet))]
		s[j] = alphabet[c.Choose(len(alphabet))]
		return s
	}}
}

// cut yields every document of a grammar, cut off anywhere.
func cut(g gen.Grammar) byteSpace {
	g.Base = 1
	return byteSpace{"cut", fmt.Sprintf("all documents of at most %d items, cut off anywhere", g.Tokens), func(c *Ctx) []byte {
		b := g.Body(c)
		return b[:c.Choose(len(b))]
	}}
}

// wild yields documents of a grammar with offsets that lead anywhere.
func wild(g gen.Grammar) byteSpace {
	g.Base = 1
	g.BadOffsets = true
	return byteSpace{"offsets", fmt.Sprintf("all documents of at most %d items with offsets that lead anywhere", g.Tokens), func(c *Ctx) []byte { return g.Body(c) }}
}

var anyGrammar = gen.Grammar{MaxKids: 2, Leaves: [][]byte{{7}, gen.Short("b"), gen.UTF8("ab")}, Array: true, Hash: true, Inline: true, Refn: true, Refp: true, Alias: true, Copy: true, Object: true, Freeze: true, Weak: true, Regexp: true, Pad: true}

func withTokens(g gen.Grammar, n int) gen.Grammar { g.Tokens = n; return g }

func byteSpaces(thorough bool) []byteSpace {
	if thorough {
		return []byteSpace{
			wordsOver("3 bytes", allBytes(), 3),
			wordsOver("tags", tagBytes, 5),
			wordsOver("few tags", fewTagBytes, 6),
			wordsOver("references", refBytes, 7),
			damaged(seeds()),
			twice(seeds(), tagBytes),
			cut(withTokens(anyGrammar, 5)),
			wild(withTokens(anyGrammar, 4)),
		}
	}
	return []byteSpace{
		wordsOver("2 bytes", allBytes(), 2),
		wordsOver("tags", tagBytes, 4),
		wordsOver("few tags", fewTagBytes, 4),
		wordsOver("references", refBytes, 5),
		damaged(seeds()),
		twice(seeds(), fewTagBytes),
		cut(withTokens(anyGrammar, 4)),
		wild(withTokens(anyGrammar, 3)),
	}
}
