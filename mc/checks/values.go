package checks

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/order"
	"verif/mc/ref"
)

// config is an encoder's configuration.
type config struct {
	version   int // 0: an Encoder{} without a version
	perl      bool
	nodedup   bool
	nofreeze  bool
	expected  uint
	comp      int // a gen document type; Snappy is not incremental
	level     int
	threshold int
	depth     int
}

func (k config) String() string {
	return fmt.Sprintf("version=%d PerlCompat=%v DisableDedup=%v DisableFREEZE=%v ExpectedSize=%d compression=%d/%d threshold=%d MaxRecursionDepth=%d", k.version, k.perl, k.nodedup, k.nofreeze, k.expected, k.comp, k.level, k.threshold, k.depth)
}

func (k config) encoder() *sereal.Encoder {
	e := &sereal.Encoder{}
	switch k.version {
	case 1:
		e = sereal.NewEncoder()
	case 2:
		e = sereal.NewEncoderV2()
	case 3:
		e = sereal.NewEncoderV3()
	}
	e.PerlCompat, e.DisableDedup, e.DisableFREEZE = k.perl, k.nodedup, k.nofreeze
	e.ExpectedSize, e.CompressionThreshold, e.MaxRecursionDepth = k.expected, k.threshold, k.depth
	switch k.comp {
	case gen.Snappy:
		e.Compression = sereal.SnappyCompressor{}
	case gen.SnappyIncr:
		e.Compression = sereal.SnappyCompressor{Incremental: true}
	case gen.Zlib:
		e.Compression = sereal.ZlibCompressor{Level: k.level}
	case gen.Zstd:
		e.Compression = sereal.ZstdCompressor{Level: k.level}
	}
	return e
}

// docVersion is the version that its documents have.
func (k config) docVersion() int {
	if k.version == 0 {
		return sereal.ProtocolVersion
	}
	return k.version
}

// marshal encodes a value with a new encoder. With a c, all orders in which the
// encoder can meet the keys of maps are explored.
func (k config) marshal(c *Ctx, header, v interface{}) (doc []byte, err error) {
	return marshalWith(c, k.encoder(), header, v)
}

func marshalWith(c *Ctx, e *sereal.Encoder, header, v interface{}) (doc []byte, err error) {
	err = safe(func() error {
		order.Explore(c, func() { doc, err = e.MarshalWithHeader(header, v) })
		return err
	})
	return doc, err
}

func (k config) graphOpts() ref.GraphOpts {
	return ref.GraphOpts{PerlCompat: k.perl, DisableFREEZE: k.nofreeze}
}

// coreConfigs are those that change what a document looks like.
var coreConfigs = func() (r []config) {
	for v := 1; v <= 3; v++ {
		for i := 0; i < 4; i++ {
			r = append(r, config{version: v, perl: i&1 != 0, nodedup: i&2 != 0})
		}
	}
	return append(r, config{})
}()

var twoConfigs = []config{{version: 3}, {version: 1, perl: true}}

// allConfigs are all configurations.
var allConfigs = func() (r []config) {
	for _, k := range coreConfigs {
		for _, k.expected = range []uint{0, 1, 4096} {
			r = append(r, k)
			for _, c := range [][2]int{{gen.Snappy, 0}, {gen.SnappyIncr, 0}, {gen.Zlib, 0}, {gen.Zlib, -1}, {gen.Zlib, 1}, {gen.Zlib, 9}} {
				k := k
				k.comp, k.level = c[0], c[1]
				if k.comp == gen.Snappy && k.docVersion() > 1 || k.comp == gen.Zlib && k.docVersion() < 3 {
					continue
				}
				for _, k.threshold = range []int{0, 1, 6, 1024} {
					r = append(r, k)
				}
			}
		}
	}
	return r
}()

type (
	myInt    int
	myInt8   int8
	myUint   uint
	myUint64 uint64
	myBool   bool
	myString string
	myFloat  float64
	myF32    float32
	myBytes  []byte
	mySlice  []interface{}
	myMap    map[string]interface{}
	myKeyMap map[myString]interface{}
	myIface  interface{}
)

// intBoundaries are all integers where something could change.
func intBoundaries() (r []uint64) {
	seen := map[uint64]bool{}
	add := func(v uint64) {
		if !seen[v] {
			seen[v] = true
			r = append(r, v)
		}
	}
	for i := uint64(0); i < 260; i++ {
		add(i)
		add(-i)
	}
	for s := uint(8); s < 64; s++ {
		for d := uint64(0); d < 3; d++ {
			add(1<<s + d)
			add(1<<s - d)
			add(-(1 << s) + d)
			add(-(1 << s) - d)
		}
	}
	return r
}

func floatBits64() (r []uint64) {
	for s := uint(0); s < 64; s++ {
		r = append(r, 1<<s, 1<<s-1, 0x7ff<<52|1<<s, 0xfff<<52|1<<s, 0x3ff<<52|1<<s)
	}
	return append(r, math.Float64bits(math.Pi), math.Float64bits(math.Inf(1)), math.Float64bits(math.Inf(-1)), 1<<63)
}

func floatBits32() (r []uint32) {
	for s := uint(0); s < 32; s++ {
		r = append(r, 1<<s, 1<<s-1, 0xff<<23|1<<s, 0x1ff<<23|1<<s, 0x7f<<23|1<<s)
	}
	return r
}

// scalars are values without anything below them, of every type.
func scalars() (r []interface{}) {
	r = append(r, nil, true, false, myBool(true), myBool(false))
	for _, u := range intBoundaries() {
		r = append(r, int(u), int64(u), uint(u), uint64(u))
		if int64(int32(u)) == int64(u) {
			r = append(r, int32(u), myInt(u))
		}
		if uint64(uint32(u)) == u {
			r = append(r, uint32(u), myUint(u))
		}
		if int64(int16(u)) == int64(u) {
			r = append(r, int16(u))
		}
		if uint64(uint16(u)) == u {
			r = append(r, uint16(u))
		}
		if int64(int8(u)) == int64(u) {
			r = append(r, int8(u), myInt8(u))
		}
		if uint64(uint8(u)) == u {
			r = append(r, uint8(u))
		}
		r = append(r, myUint64(u), json.Number(fmt.Sprint(u)), json.Number(fmt.Sprint(int64(u))))
	}
	for _, b := range floatBits64() {
		r = append(r, math.Float64frombits(b), myFloat(math.Float64frombits(b)))
	}
	for _, b := range floatBits32() {
		r = append(r, math.Float32frombits(b), myF32(math.Float32frombits(b)))
	}
	for _, s := range []string{"", "0", "1.5", "-1.5e300", "1e400", "-0", "007", "18446744073709551616", "-9223372036854775809", "123456789012345678901234567890", "abc", "1e5", "0.1", "-", "NaN", "inf", "0x10", "1_000", " 1", "+5"} {
		r = append(r, json.Number(s))
	}
	for _, s := range []string{"\x00", "\xff\xfe", "h\u00e9llo", "\U0001f600", "=srl", "\x29\x01", string([]byte{0xed, 0xa0, 0x80})} {
		r = append(r, s, []byte(s), myString(s))
	}
	for i := 0; i < 34; i++ {
		r = append(r, filled(i), []byte(filled(i)), myString(filled(i)))
	}
	return r
}

// fewScalars are few of them, for trees.
func fewScalars() []interface{} { return []interface{}{nil, 7, "a", []byte("b"), -20, 2.5} }

// valueGrammar says what trees of values are made of.
type valueGrammar struct {
	tokens  int
	maxKids int
	leaves  []interface{}
	keys    []string
	typed   bool // slices, arrays and maps of interfaces of other types, too
}

type valueGen struct {
	*valueGrammar
	c    *Ctx
	left int
}

func (g valueGrammar) value(c *Ctx) interface{} {
	v := &valueGen{&g, c, g.tokens}
	return v.value(0)
}

// value makes a value; reserve tokens are needed for others.
func (g *valueGen) value(reserve int) interface{} {
	g.left--
	avail := g.left - reserve
	kids := g.maxKids
	if kids > avail {
		kids = avail
	}
	if kids < 0 {
		kids = 0
	}
	mapKids := kids
	if mapKids > len(g.keys) {
		mapKids = len(g.keys)
	}
	kinds := 2
	if g.typed {
		kinds = 5
	}
	// leaves, slices of 0..kids, maps of 0..mapKids
	i := g.c.Choose(len(g.leaves) + kinds)
	if i < len(g.leaves) {
		return g.leaves[i]
	}
	switch i - len(g.leaves) {
	case 0:
		s := make([]interface{}, g.c.Choose(kids+1))
		for i := range s {
			s[i] = g.value(reserve + len(s) - 1 - i)
		}
		return s
	case 1:
		n := g.c.Choose(mapKids + 1)
		m := map[string]interface{}{}
		first := g.c.Choose(len(g.keys))
		for i := 0; i < n; i++ {
			m[g.keys[(first+i)%len(g.keys)]] = g.value(reserve + n - 1 - i)
		}
		return m
	case 2:
		s := make(mySlice, g.c.Choose(kids+1))
		for i := range s {
			s[i] = g.value(reserve + len(s) - 1 - i)
		}
		return s
	case 3:
		n := g.c.Choose(mapKids + 1)
		m := myKeyMap{}
		for i := 0; i < n; i++ {
			m[myString(g.keys[i])] = g.value(reserve + n - 1 - i)
		}
		return m
	}
	if avail >= 2 {
		var a [2]interface{}
		a[0] = g.value(reserve + 1)
		a[1] = g.value(reserve)
		return a
	}
	return [0]interface{}{}
}

// sameUntyped tells whether got is what v comes back as from an empty interface.
func sameUntyped(v interface{}, got interface{}) error {
	return sameUntypedAt(reflect.ValueOf(v), got, "top")
}

func sameUntypedAt(rv reflect.Value, got interface{}, path string) error {
	for rv.Kind() == reflect.Interface {
		rv = rv.Elem()
	}
	var want interface{}
	if rv.IsValid() {
		want = rv.Interface()
	}
	bad := func() error {
		return fmt.Errorf("at %s: %s comes back as %s", path, ref.Show(want), ref.Show(got))
	}
	if n, ok := want.(json.Number); ok {
		rv = reflect.ValueOf(ref.JSONNumber(n))
	}
	if b, ok := want.([]byte); ok {
		if g, ok := got.([]byte); !ok || g == nil || string(g) != string(b) {
			return bad()
		}
		return nil
	}
	switch rv.Kind() {
	case reflect.Invalid:
		if got != nil {
			return bad()
		}
	case reflect.Bool:
		if g, ok := got.(bool); !ok || g != rv.Bool() {
			return bad()
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if g, ok := got.(int); !ok || int64(g) != rv.Int() {
			return bad()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if u := rv.Uint(); u <= math.MaxInt64 {
			if g, ok := got.(int); !ok || uint64(g) != u {
				return bad()
			}
		} else if g, ok := got.(uint); !ok || uint64(g) != u {
			return bad()
		}
	case reflect.Float32:
		if g, ok := got.(float32); !ok || math.Float32bits(g) != ref.Bits32(rv) {
			return bad()
		}
	case reflect.Float64:
		if g, ok := got.(float64); !ok || math.Float64bits(g) != math.Float64bits(rv.Float()) {
			return bad()
		}
	case reflect.String:
		if g, ok := got.(string); !ok || g != rv.String() {
			return bad()
		}
	case reflect.Slice, reflect.Array:
		g, ok := got.([]interface{})
		if !ok || g == nil || len(g) != rv.Len() {
			return bad()
		}
		for i := range g {
			if err := sameUntypedAt(rv.Index(i), g[i], ref.PathN(path, "[%d]", i)); err != nil {
				return err
			}
		}
	case reflect.Map:
		g, ok := got.(map[string]interface{})
		if !ok || g == nil || len(g) != rv.Len() {
			return bad()
		}
		for _, k := range rv.MapKeys() {
			name := k
			for name.Kind() == reflect.Interface {
				name = name.Elem()
			}
			x, ok := g[name.String()]
			if !ok {
				return bad()
			}
			if err := sameUntypedAt(rv.MapIndex(k), x, ref.Path(path, "{"+name.String()+"}")); err != nil {
				return err
			}
		}
	default:
		return bad()
	}
	return nil
}
