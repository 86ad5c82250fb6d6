// Package gen makes documents and Go values, one for every sequence of choices.
package gen

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"math"

	"github.com/golang/snappy"

	"verif/mc/explore"
)

// Document types
const (
	Raw        = 0
	Snappy     = 1
	SnappyIncr = 2
	Zlib       = 3
	Zstd       = 4
)

// Varint appends a varint.
func Varint(b []byte, v uint64) []byte { return binary.AppendUvarint(b, v) }

// Header returns the header of a document.
func Header(version, typ int, suffix []byte) []byte {
	b := []byte("=srl")
	if version >= 3 {
		b[1] = 0xf3
	}
	b = append(b, byte(version|typ<<4))
	b = Varint(b, uint64(len(suffix)))
	return append(b, suffix...)
}

// Compress compresses a body for the document type.
func Compress(typ int, body []byte) []byte {
	switch typ {
	case Raw:
		return body
	case Snappy:
		return snappy.Encode(nil, body)
	case SnappyIncr:
		c := snappy.Encode(nil, body)
		return append(Varint(nil, uint64(len(c))), c...)
	case Zlib:
		var z bytes.Buffer
		w := zlib.NewWriter(&z)
		w.Write(body)
		w.Close()
		b := Varint(nil, uint64(len(body)))
		b = Varint(b, uint64(z.Len()))
		return append(b, z.Bytes()...)
	case Zstd:
		return ZstdBody(ZstdFrame(body, 3))
	}
	panic(fmt.Sprint("document type ", typ))
}

// Zstd is compressed by the C library, in the build that has it.
var (
	zstdFrame  func(body []byte, level int) []byte
	ZstdStream func(body []byte, level, chunk int) []byte
)

// HasZstd tells whether this is that build.
func HasZstd() bool { return zstdFrame != nil }

// ZstdFrame returns one frame.
func ZstdFrame(body []byte, level int) []byte { return zstdFrame(body, level) }

// ZstdBody is what a document has for such frames.
func ZstdBody(frames []byte) []byte { return append(Varint(nil, uint64(len(frames))), frames...) }

// Doc returns a document.
func Doc(version, typ int, suffix, body []byte) []byte {
	return append(Header(version, typ, suffix), Compress(typ, body)...)
}

// Base returns what offsets of a body that starts with its first byte count
// from: the offset of that byte.
func Base(version int, suffix []byte) int {
	if version == 1 {
		return len(Header(1, 0, suffix))
	}
	return 1
}

// Types returns the document types of a version.
func Types(version int) []int {
	switch version {
	case 1:
		return []int{Raw, Snappy, SnappyIncr}
	case 2:
		return []int{Raw, SnappyIncr}
	}
	return []int{Raw, SnappyIncr, Zlib}
}

// Bytes is an item or a string as it is in a document.
func Float32(f float32) []byte {
	return binary.LittleEndian.AppendUint32([]byte{0x22}, math.Float32bits(f))
}

// Float64 is a DOUBLE.
func Float64(f float64) []byte {
	return binary.LittleEndian.AppendUint64([]byte{0x23}, math.Float64bits(f))
}

// Binary is a BINARY.
func Binary(s string) []byte { return append(Varint([]byte{0x26}, uint64(len(s))), s...) }

// UTF8 is a STR_UTF8.
func UTF8(s string) []byte { return append(Varint([]byte{0x27}, uint64(len(s))), s...) }

// Short is a SHORT_BINARY.
func Short(s string) []byte { return append([]byte{0x60 + byte(len(s))}, s...) }

// VarintItem is a VARINT.
func VarintItem(v uint64) []byte { return Varint([]byte{0x20}, v) }

// ZigzagItem is a ZIGZAG.
func ZigzagItem(v int64) []byte { return Varint([]byte{0x21}, uint64(v<<1)^uint64(v>>63)) }

// Grammar says what documents are made of.
type Grammar struct {
	Tokens  int      // at most
	Leaves  [][]byte // items without further items
	MaxKids int
	Base    int    // offset of the first byte
	Keys    string // what keys begin with
	Prefix  []byte // comes in front of the item, and counts for offsets only

	Array, Hash, Inline bool
	Refn, Refp, Alias   bool
	Copy                bool
	Object, Freeze      bool
	Weak, Regexp, Pad   bool
	Perlish             bool // ARRAY and HASH come with the REFN in front of them
	PadF                bool // PAD with the F bit, too, and in front of strings
	BadOffsets          bool // offsets to where no item starts, too
}

type docGen struct {
	*Grammar
	c     *explore.Ctx
	b     []byte
	left  int
	items []int // where items start
	strs  []int // where strings start
	again []int // where class names that are copies start
	track []int
	keys  int
}

// Body returns a body of the grammar.
func (g *Grammar) Body(c *explore.Ctx) []byte {
	d := &docGen{Grammar: g, c: c, left: g.Tokens, b: append([]byte{}, g.Prefix...)}
	d.item(0)
	for _, t := range d.track {
		d.b[t] |= 0x80
	}
	return d.b
}

func (d *docGen) put(x []byte) {
	if x[0] == 0x26 || x[0] == 0x27 || x[0] >= 0x60 {
		d.strs = append(d.strs, len(d.b))
	}
	d.b = append(d.b, x...)
}

func (d *docGen) pick(from []int) int {
	if d.BadOffsets {
		return d.c.Choose(len(d.b) + 1)
	}
	return from[d.c.Choose(len(from))]
}

func (d *docGen) offset(at int) { d.b = Varint(d.b, uint64(at+d.Base)) }

// item makes an item; reserve tokens are needed for others.
func (d *docGen) item(reserve int) {
	d.left--
	avail := d.left - reserve
	earlier := d.items
	var alts []func()
	add := func(on bool, f func()) {
		if on {
			alts = append(alts, f)
		}
	}
	tag := func(t byte) {
		d.items = append(d.items, len(d.b))
		d.b = append(d.b, t)
	}
	for _, l := range d.Leaves {
		l := l
		add(true, func() {
			d.items = append(d.items, len(d.b))
			d.put(l)
		})
	}
	kids := func(k int, hash bool) {
		for i := 0; i < k; i++ {
			if hash {
				d.key()
			}
			d.item(reserve + k - 1 - i)
		}
	}
	refn := func() {
		if d.Perlish {
			tag(0x28)
		}
	}
	for k := 0; k <= d.MaxKids && k <= avail; k++ {
		k := k
		add(d.Array, func() { refn(); tag(0x2b); d.b = append(d.b, byte(k)); kids(k, false) })
		add(d.Hash, func() { refn(); tag(0x2a); d.b = append(d.b, byte(k)); kids(k, true) })
		add(d.Array && d.Inline, func() { tag(0x40 + byte(k)); kids(k, false) })
		add(d.Hash && d.Inline, func() { tag(0x50 + byte(k)); kids(k, true) })
	}
	if avail >= 1 {
		add(d.Refn, func() { tag(0x28); d.item(reserve) })
		add(d.Weak, func() { tag(0x30); d.item(reserve) })
		add(d.Pad, func() { d.b = append(d.b, 0x3f); d.item(reserve) })
		add(d.PadF, func() { d.b = append(d.b, 0xbf); d.item(reserve) })
		add(d.Object, func() { tag(0x2c); d.class(); d.item(reserve) })
		add(d.Object && len(d.strs) > 0, func() {
			tag(0x2d)
			d.offset(d.pick(append(append([]int{}, d.again...), d.strs...)))
			d.item(reserve)
		})
	}
	if len(earlier) > 0 {
		add(d.Refp, func() { t := d.pick(d.items); tag(0x29); d.offset(t); d.track = append(d.track, t) })
		add(d.Alias, func() { t := d.pick(d.items); tag(0x2e); d.offset(t); d.track = append(d.track, t) })
		add(d.Copy, func() { t := d.pick(d.items); tag(0x2f); d.offset(t) })
	}
	add(d.Copy && len(d.strs) > 0 && d.Hash, func() { t := d.pick(d.strs); tag(0x2f); d.offset(t) })
	froz := func() {
		d.items = append(d.items, len(d.b), len(d.b)+1, len(d.b)+3)
		d.b = append(d.b, 0x28, 0x2b, 1)
		d.put(Short("dat"))
	}
	add(d.Freeze, func() { tag(0x32); d.class(); froz() })
	add(d.Freeze && len(d.strs) > 0, func() {
		tag(0x33)
		d.offset(d.pick(append(append([]int{}, d.again...), d.strs...)))
		froz()
	})
	add(d.Regexp, func() { tag(0x31); d.str("re"); d.str("i") })
	alts[d.c.Choose(len(alts))]()
}

// key makes a hash key.
func (d *docGen) key() {
	d.keys++
	d.str(d.Keys + string(rune('a'+d.keys-1)))
}

func (d *docGen) class() {
	at := len(d.b)
	d.str("Cls")
	for d.b[at]&0x7f == 0x3f {
		at++
	}
	if d.b[at] == 0x2f {
		d.again = append(d.again, at)
	}
}

func (d *docGen) str(s string) {
	if d.PadF {
		d.b = append(d.b, [][]byte{nil, {0x3f}, {0xbf}, {0xbf, 0x3f}}[d.c.Choose(4)]...)
	}
	n := 1
	if d.Copy && len(d.strs) > 0 {
		n = 2
	}
	switch d.c.Choose(n) {
	case 0:
		d.put(Short(s))
	case 1:
		t := d.pick(d.strs)
		d.b = append(d.b, 0x2f)
		d.offset(t)
	}
}

// AllLeaves are items of every kind that has none below it.
func AllLeaves() [][]byte {
	return [][]byte{
		{0x25}, {0x39}, {0x3a}, {0x3b}, {5}, {0x1d},
		VarintItem(300), VarintItem(math.MaxUint64), ZigzagItem(-70), ZigzagItem(70),
		Float32(1.5), Float64(-2.25),
		Short(""), Short("b"), Binary("bin"), UTF8("t\u00e9xt"), UTF8(""),
	}
}

// SomeLeaves are few of them.
func SomeLeaves() [][]byte {
	return [][]byte{{0x25}, {5}, Short("b"), UTF8("u")}
}
