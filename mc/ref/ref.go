// Package ref is an independent reference implementation of the Sereal
// document format, written from sereal_spec.pod alone: a parser from bytes to
// a graph of items. It is slow, strict and simple.
package ref

import (
	"bytes"
	"compress/zlib"
	"encoding/binary"
	"fmt"
	"io"

	"github.com/golang/snappy"
)

// Kind of an item.
type Kind int

// Kinds of items
const (
	Undef Kind = iota
	CanonUndef
	Bool
	Int   // B: bit pattern of the integer; Neg: it is an int64
	Float // B: bits
	Double
	Bin // S
	Str // S
	Array
	Hash
	Ref        // Kids[0]
	Weak       // Kids[0]
	Object     // S class, Kids[0]
	Freeze     // S class, Kids[0]
	Regexp     // S pattern, S2 modifiers
	Alias      // Kids[0] is the item itself (only in Expected values; the parser shares nodes)
	Hole       // not parsed yet
	LongDouble // S: its bytes
)

var kindNames = []string{"undef", "UNDEF", "bool", "int", "float", "double", "bin", "str", "array", "hash", "ref", "weak", "object", "freeze", "regexp", "alias", "hole", "long double"}

func (k Kind) String() string { return kindNames[k] }

// Node is an item of a document.
type Node struct {
	Kind Kind
	B    uint64
	Neg  bool
	S    string
	S2   string
	Kids []*Node
	Keys []Key // of a Hash, in order; Kids are the values

	Off     int  // offset of the tag, relative to what offsets count from
	Tracked bool // has the F bit
	ByREFP  bool // a Ref written as REFP
	Inline  bool // a Ref written as ARRAYREF or HASHREF (Kids[0] has no tag of its own)
	Copied  bool // parsed again because of a COPY tag
	Aliased bool // some ALIAS tag leads here

	weak ident // of the target of a pointer (in graphs of Go values)
}

// Key of a hash.
type Key struct {
	S    string
	UTF8 bool
}

// Class of a document.
type Class int

// Classes
const (
	Valid   Class = iota
	Invalid       // the specification rules it out: a decoder has to report an error
	Lenient       // odd, decoders may differ: all that can be asked is that it does no harm
)

func (c Class) String() string { return [...]string{"valid", "invalid", "lenient"}[c] }

// Error tells why a document is not valid.
type Error struct {
	Class Class
	Msg   string
}

func (e *Error) Error() string { return e.Class.String() + ": " + e.Msg }

func bad(f string, a ...interface{}) { panic(&Error{Invalid, fmt.Sprintf(f, a...)}) }
func odd(f string, a ...interface{}) { panic(&Error{Lenient, fmt.Sprintf(f, a...)}) }

// Header of a document.
type Header struct {
	Version int
	Type    int
	Suffix  []byte
	BodyAt  int
}

// Doc is a parsed document.
type Doc struct {
	Header
	Meta  *Node // user data of the header, or nil
	Body  *Node
	Raw   []byte // uncompressed body
	Open  bool   // it could be uncompressed
	End   int    // where parsing of the body ended
	Feats Features
}

// Features of a document that decide what can be asked of a decoder.
type Features struct {
	CopyOfTracked bool // a COPY repeats an item with an F bit or a reference by offset
	CopyOfNonStr  bool
	Alias         bool
	DupKeys       bool
	FreezeOdd     bool // the frozen data is not a single byte string in REFN ARRAY
	OpenAlias     bool // an ALIAS to an item that encloses it
	RefToHole     bool // a REFP to an item around it, with no container between them
	Trailing      bool
	Pads          bool
	MidCopy       bool
	LongDouble    bool
}

// ParseHeader parses a header.
func ParseHeader(b []byte) (h Header, err error) {
	defer catch(&err)
	if len(b) < 5 {
		bad("no header")
	}
	h.Version, h.Type = int(b[4]&15), int(b[4]>>4)
	switch string(b[:4]) {
	case "=srl":
		if h.Version < 1 || h.Version > 2 {
			bad("old magic with version %d", h.Version)
		}
	case "=\xf3rl":
		if h.Version < 3 {
			bad("new magic with version %d", h.Version)
		}
	default:
		bad("bad magic")
	}
	p := &parser{b: b, i: 5}
	n := p.varint()
	if n > uint64(len(b)-p.i) {
		bad("truncated header")
	}
	h.Suffix = b[p.i : p.i+int(n)]
	h.BodyAt = p.i + int(n)
	return h, nil
}

func catch(err *error) {
	if r := recover(); r != nil {
		e, ok := r.(*Error)
		if !ok {
			panic(r)
		}
		*err = e
	}
}

// MaxVersion is the newest version that the Go decoder supports.
const MaxVersion = 4

// Supported tells why documents of this version and type are no good.
func (h *Header) Supported() error {
	ok := false
	switch h.Type {
	case 0, 2:
		ok = true
	case 1:
		ok = h.Version == 1
	case 3:
		ok = h.Version >= 3
	case 4:
		ok = h.Version >= 4
	}
	if !ok || h.Version > MaxVersion {
		return &Error{Invalid, fmt.Sprintf("document type %d in version %d", h.Type, h.Version)}
	}
	return nil
}

// Parse parses a document.
func Parse(b []byte) (d *Doc, err error) {
	d = &Doc{}
	if d.Header, err = ParseHeader(b); err != nil {
		return nil, err
	}
	defer catch(&err)
	if err := d.Supported(); err != nil {
		panic(err)
	}
	raw := b[d.BodyAt:]
	switch d.Type {
	case 0:
	case 1:
		raw = unsnappy(raw)
	case 2:
		p := &parser{b: raw}
		n := p.varint()
		if n > uint64(len(raw)-p.i) {
			bad("truncated snappy body")
		}
		raw = unsnappy(raw[p.i : p.i+int(n)])
	case 3:
		p := &parser{b: raw}
		un := p.varint()
		n := p.varint()
		if n > uint64(len(raw)-p.i) {
			bad("truncated zlib body")
		}
		zr, err := zlib.NewReader(bytes.NewReader(raw[p.i : p.i+int(n)]))
		if err != nil {
			bad("zlib: %v", err)
		}
		raw, err = io.ReadAll(zr)
		if err != nil {
			bad("zlib: %v", err)
		}
		if uint64(len(raw)) != un {
			odd("zlib length %d is really %d", un, len(raw))
		}
	case 4:
		p := &parser{b: raw}
		n := p.varint()
		if n > uint64(len(raw)-p.i) {
			bad("truncated zstd body")
		}
		if unzstd == nil {
			odd("zstd")
		}
		one := false
		raw, one, err = unzstd(raw[p.i : p.i+int(n)])
		if err != nil {
			bad("zstd: %v", err)
		}
		if !one {
			odd("zstd body that is not one frame")
		}
	}
	d.Raw, d.Open = raw, true
	base := -1
	if d.Version == 1 {
		base = -d.BodyAt
	}
	d.Body, d.End, d.Feats, err = ParseBody(raw, base)
	return d, err
}

// ParseMeta parses the user data in the header, if there is any.
func (h *Header) ParseMeta() (n *Node, feats Features, err error) {
	if h.Version == 1 || len(h.Suffix) == 0 || h.Suffix[0]&1 == 0 {
		return nil, feats, nil
	}
	n, _, feats, err = ParseBody(h.Suffix[1:], -1)
	return n, feats, err
}

// unzstd decompresses zstd frames, in the build that has the C library, and
// tells whether it was one frame.
var unzstd func(b []byte) (raw []byte, one bool, err error)

func unsnappy(b []byte) []byte {
	if n, err := snappy.DecodedLen(b); err != nil || n > 1<<28 {
		bad("snappy")
	}
	r, err := snappy.Decode(nil, b)
	if err != nil {
		bad("snappy: %v", err)
	}
	return r
}

type parser struct {
	b     []byte
	i     int
	base  int // offset of byte i is i-base
	at    map[int]*Node
	open  map[int]int  // offsets of items being parsed, with the containers around them
	boxes int          // containers being parsed
	again map[int]bool // offsets of F bits seen again by a COPY
	padF  map[int]bool // offsets of PAD with F bits
	copy  int          // 0, 1 within a COPY, 2 within a COPY of a string
	f     Features
	deep  int
	lay   *Layout // if wanted
}

// ParseBody parses one item. Offsets in it count from base.
func ParseBody(b []byte, base int) (n *Node, end int, f Features, err error) {
	p := &parser{b: b, base: base, at: map[int]*Node{}, again: map[int]bool{}, padF: map[int]bool{}, open: map[int]int{}}
	defer func() { f, end = p.f, p.i }()
	defer catch(&err)
	n = p.item()
	p.f.Trailing = p.i != len(b)
	return n, p.i, p.f, nil
}

func (p *parser) byte() byte {
	if p.i >= len(p.b) {
		bad("truncated at %d", p.i)
	}
	p.i++
	return p.b[p.i-1]
}

func (p *parser) varint() uint64 {
	var v uint64
	for s := uint(0); ; s += 7 {
		c := p.byte()
		if s == 63 && c&0x7e != 0 || s > 63 {
			if c&0x80 != 0 || s > 63 {
				bad("varint too long at %d", p.i)
			}
			odd("varint with more than 64 bits at %d", p.i)
		}
		v |= uint64(c&0x7f) << s
		if c&0x80 == 0 {
			return v
		}
	}
}

func (p *parser) bytes(n uint64) string {
	if n > uint64(len(p.b)-p.i) {
		bad("truncated string at %d", p.i)
	}
	p.i += int(n)
	return string(p.b[p.i-int(n) : p.i])
}

// offset reads an offset, which must lie before the tag that it belongs to.
func (p *parser) offset(tagAt int) int {
	v := p.varint()
	o := int64(v)
	if o < 0 || o > int64(tagAt-p.base) {
		bad("offset %d ahead of %d", o, tagAt-p.base)
	}
	if int(o)+p.base < 0 {
		odd("offset %d before the body", o)
	}
	return int(o)
}

func isStr(tag byte) bool { return tag == 0x26 || tag == 0x27 || tag >= 0x60 }

func (p *parser) pads() {
	for p.i < len(p.b) && p.b[p.i]&0x7f == 0x3f {
		if p.b[p.i]&0x80 != 0 {
			p.padF[p.i-p.base] = true // without a meaning, unless something refers to it
		}
		p.f.Pads = true
		p.i++
	}
}

// str parses a string tag or a COPY of one.
func (p *parser) str(role Role) Key {
	p.pads()
	at := p.i
	tag := p.byte() & 0x7f
	if p.lay != nil && p.copy == 0 {
		defer func(role Role) { p.lay.add(p, at, role) }(role)
	}
	switch {
	case tag == 0x26:
		return Key{p.bytes(p.varint()), false}
	case tag == 0x27:
		return Key{p.bytes(p.varint()), true}
	case tag >= 0x60:
		return Key{p.bytes(uint64(tag & 31)), false}
	case tag == 0x2f:
		if p.copy >= 2 {
			bad("COPY of a COPY at %d", at)
		}
		o := p.offset(at)
		end := p.i
		if o == at-p.base {
			bad("COPY of itself at %d", at)
		}
		was := p.copy
		p.copy = 2
		p.i = o + p.base
		k := p.str(role)
		p.copy = was
		if p.i > at && p.i > end {
			p.f.MidCopy = true
		}
		p.i = end
		return k
	}
	bad("no string but tag %#x at %d", tag, at)
	return Key{}
}

func (p *parser) item() *Node {
	if p.deep++; p.deep > 1<<18 {
		odd("nested too deep")
	}
	defer func() { p.deep-- }()
	p.pads()
	at := p.i
	off := at - p.base
	raw := p.byte()
	tag := raw & 0x7f
	n := &Node{Kind: Hole, Off: off, Tracked: raw&0x80 != 0, Copied: p.copy > 0}
	if n.Tracked {
		if p.copy > 0 {
			p.again[off] = true
			defer func() {
				if n.Kind > Str {
					p.f.CopyOfTracked = true
				}
			}()
		} else {
			p.at[off] = n
		}
	}
	if p.copy == 0 {
		p.open[off] = p.boxes
		defer delete(p.open, off)
	}
	if p.lay != nil && p.copy == 0 && (isStr(tag) || tag == 0x2f) {
		defer func() { p.lay.add(p, at, ValueRole) }()
	}
	switch {
	case tag < 0x10:
		n.Kind, n.B = Int, uint64(tag)
	case tag < 0x20:
		n.set(int64(tag) - 32)
	case tag == 0x20:
		n.Kind, n.B = Int, p.varint()
	case tag == 0x21:
		v := p.varint()
		n.set(int64(v>>1) ^ -int64(v&1))
	case tag == 0x22:
		n.Kind, n.B = Float, uint64(binary.LittleEndian.Uint32([]byte(p.bytes(4))))
	case tag == 0x23:
		n.Kind, n.B = Double, binary.LittleEndian.Uint64([]byte(p.bytes(8)))
	case tag == 0x25:
		n.Kind = Undef
	case tag == 0x39:
		n.Kind = CanonUndef
	case tag == 0x3a || tag == 0x3b:
		n.Kind, n.B = Bool, uint64(tag&1)
	case tag == 0x26:
		n.Kind, n.S = Bin, p.bytes(p.varint())
	case tag == 0x27:
		n.Kind, n.S = Str, p.bytes(p.varint())
	case tag >= 0x60:
		n.Kind, n.S = Bin, p.bytes(uint64(tag&31))
	case tag == 0x28:
		n.Kind = Ref
		n.Kids = []*Node{nil}
		n.Kids[0] = p.item()
	case tag == 0x29:
		t := p.target(at)
		n.Kind, n.ByREFP = Ref, true
		n.Kids = []*Node{t}
	case tag == 0x2e:
		t := p.target(at)
		p.f.Alias = true
		t.Aliased = true
		if _, ok := p.open[t.Off]; ok {
			p.f.OpenAlias = true
		}
		if n.Tracked {
			odd("tracked ALIAS")
		}
		return t
	case tag == 0x2a:
		p.hash(n, p.varint())
	case tag == 0x2b:
		p.array(n, p.varint())
	case tag >= 0x50:
		n.Kind, n.Inline = Ref, true
		h := &Node{Off: -1}
		n.Kids = []*Node{h}
		p.hash(h, uint64(tag&15))
	case tag >= 0x40:
		n.Kind, n.Inline = Ref, true
		a := &Node{Off: -1}
		n.Kids = []*Node{a}
		p.array(a, uint64(tag&15))
	case tag == 0x2c || tag == 0x32:
		n.Kids = []*Node{nil}
		n.S = p.str(ClassRole).S
		n.Kind = Object
		if tag == 0x32 {
			n.Kind = Freeze
			p.freeze(n)
		} else {
			n.Kids[0] = p.item()
		}
	case tag == 0x2d || tag == 0x33:
		o := p.offset(at)
		end := p.i
		if o == off {
			bad("OBJECTV for itself")
		}
		// the offset leads to a class name
		p.i = o + p.base
		lay := p.lay
		p.lay = nil
		n.S = p.str(ClassRole).S
		p.lay = lay
		p.i = end
		n.Kids = []*Node{nil}
		n.Kind = Object
		if tag == 0x33 {
			n.Kind = Freeze
			p.freeze(n)
		} else {
			n.Kids[0] = p.item()
		}
	case tag == 0x2f:
		if p.copy > 0 {
			bad("COPY within a COPY at %d", at)
		}
		if n.Tracked {
			odd("tracked COPY")
		}
		o := p.offset(at)
		if o == off {
			bad("COPY of itself")
		}
		end := p.i
		p.copy = 1
		p.i = o + p.base
		c := p.item()
		if p.i > at {
			p.f.MidCopy = true
		}
		if c.Kind != Str && c.Kind != Bin {
			p.f.CopyOfNonStr = true
		}
		p.copy = 0
		p.i = end
		return c
	case tag == 0x30:
		n.Kind = Weak
		n.Kids = []*Node{nil}
		n.Kids[0] = p.item()
		if k := n.Kids[0].Kind; k != Ref && k != Object {
			odd("weak %v", k)
		}
	case tag == 0x31:
		n.Kind = Regexp
		n.S = p.str(RegexpRole).S
		n.S2 = p.str(RegexpRole).S
	case tag == 0x24:
		n.Kind, n.S = LongDouble, p.bytes(16)
		p.f.LongDouble = true
	case tag == 0x38:
		odd("unsupported float at %d", at)
	default:
		bad("tag %#x at %d", tag, at)
	}
	return n
}

func (n *Node) set(v int64) { n.Kind, n.B, n.Neg = Int, uint64(v), v < 0 }

func (p *parser) target(at int) *Node {
	if p.copy > 0 {
		p.f.CopyOfTracked = true
	}
	o := p.offset(at)
	t := p.at[o]
	if t == nil && p.again[o] {
		odd("tracked key at %d, and copied", o)
	}
	if t == nil && p.padF[o] {
		odd("reference to padding at %d", o)
	}
	if t == nil {
		bad("nothing tracked at offset %d", o)
	}
	if boxes, ok := p.open[o]; ok && boxes == p.boxes {
		p.f.RefToHole = true // only references between the two
	}
	return t
}

func (p *parser) freeze(n *Node) {
	// A list of arguments in REFN ARRAY. The Go decoder supports one argument,
	// a byte string, and nothing fancy in front of it.
	i := p.i
	x := p.item()
	n.Kids[0] = x
	plain := i+1 < len(p.b) && p.b[i] == 0x28 && p.b[i+1] == 0x2b
	if !plain || x.Kind != Ref || x.ByREFP || x.Kids[0].Kind != Array || len(x.Kids[0].Kids) != 1 || x.Kids[0].Kids[0].Kind != Bin {
		p.f.FreezeOdd = true
	}
}

func (p *parser) array(n *Node, ln uint64) {
	if ln > uint64(len(p.b)-p.i) {
		bad("array of %d", ln)
	}
	n.Kind = Array
	n.Kids = make([]*Node, 0, ln)
	p.boxes++
	defer func() { p.boxes-- }()
	for ; ln > 0; ln-- {
		n.Kids = append(n.Kids, p.item())
	}
}

func (p *parser) hash(n *Node, ln uint64) {
	if ln > uint64(len(p.b)-p.i)/2 {
		bad("hash of %d", ln)
	}
	n.Kind = Hash
	p.boxes++
	defer func() { p.boxes-- }()
	seen := map[string]bool{}
	for ; ln > 0; ln-- {
		k := p.str(KeyRole)
		if seen[k.S] {
			p.f.DupKeys = true
		}
		seen[k.S] = true
		n.Keys = append(n.Keys, k)
		n.Kids = append(n.Kids, p.item())
	}
}
