package checks

import (
	"fmt"
	"math"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/order"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P01", Spaces: p01, Assumptions: []string{
		"int and uint have 64 bits.",
		"A json.Number that is no integer comes back as the float64 nearest to it, and one that is no number as the string it is.",
	}})
	register(&run.Check{ID: "P03", Spaces: p03, Assumptions: []string{
		"The reference parser (mc/ref) states the format as sereal_spec.pod does, and mc/ref.GraphOf what Go values stand for; neither shares code with the repository.",
		"The encoder is free to merge variables that hold the same pointer, map, slice or string.",
	}})
}

func p01value(c *Ctx, t *T, k config, v interface{}) {
	doc, err := k.marshal(c, nil, v)
	if err != nil {
		t.Failf("%v: %s: %v", k, ref.Show(v), err)
		return
	}
	t.Sample(func() string { return k.String() + " " + ref.Show(v) + " is " + hexdump(doc) })
	p01back(t, k, v, doc)
}

func p01back(t *T, k config, v interface{}, doc []byte) {
	got, err := decodeAny(sereal.NewDecoder(), doc)
	if err == nil {
		err = sameUntyped(v, got)
	}
	if err != nil {
		t.Failf("%v: %s, encoded as %s: %v", k, ref.Show(v), hexdump(doc), err)
	}
}

// p03value checks what the encoder makes of a value.
func p03value(c *Ctx, t *T, k config, v interface{}) {
	doc, err := k.marshal(c, nil, v)
	if err != nil {
		t.Failf("%v: %s: %v", k, ref.Show(v), err)
		return
	}
	t.Sample(func() string { return k.String() + " " + ref.Show(v) + " is " + hexdump(doc) })
	p03doc(t, k, nil, v, doc)
}

func p03doc(t *T, k config, header, v interface{}, doc []byte) {
	bad := func(err error) {
		t.Failf("%v: %s is encoded as %s: %v", k, ref.Show(v), hexdump(doc), err)
	}
	d, err := ref.Parse(doc)
	if err != nil {
		bad(err)
		return
	}
	if d.Version != k.docVersion() {
		bad(fmt.Errorf("has version %d", d.Version))
	}
	if d.Feats.Trailing || d.Feats.CopyOfTracked || d.Feats.DupKeys || d.Feats.OpenAlias || d.Feats.Alias {
		bad(fmt.Errorf("%+v", d.Feats))
	}
	if err := ref.SameGraph(ref.GraphOf(v, k.graphOpts()), d.Body); err != nil {
		bad(err)
	}
	h, err := ref.ParseHeader(doc)
	if err != nil {
		bad(err)
		return
	}
	if header == nil || k.docVersion() < 2 {
		if len(h.Suffix) != 0 {
			bad(fmt.Errorf("has a header suffix"))
		}
		return
	}
	meta, has, err := h.ParseMeta()
	if err != nil || meta == nil {
		bad(fmt.Errorf("header: %v %v", has, err))
		return
	}
	if err := ref.SameGraph(ref.GraphOf(header, k.graphOpts()), meta); err != nil {
		bad(fmt.Errorf("header: %v", err))
	}
}

// positions puts a value somewhere.
var positions = []func(v interface{}) interface{}{
	func(v interface{}) interface{} { return v },
	func(v interface{}) interface{} { return []interface{}{v, v} },
	func(v interface{}) interface{} { return map[string]interface{}{"key": v} },
	func(v interface{}) interface{} { return mySlice{1, v, "x"} },
	func(v interface{}) interface{} { return [1]interface{}{v} },
	func(v interface{}) interface{} { return myKeyMap{"k": v} },
}

type stringer interface{ String() string }

// typedContainers are slices, arrays and maps of static types.
func typedContainers() []interface{} {
	return []interface{}{
		[]int{}, []int(nil), []int{1, -200, math.MaxInt64, math.MinInt64}, []uint64{0, math.MaxUint64}, []string{"", "a", "a", "long enough to be more than thirty-one bytes"},
		[][]byte{nil, {}, {1}}, []bool{true, false}, []float32{1, float32(math.Inf(1))}, []myString{"a", "a"}, []myInt8{-128, 127}, []int8{-1}, []uint16{65535},
		[0]int{}, [3]int{1, 2, 3}, [2]string{"x", "y"}, [2][]byte{{1}, {2}}, [4]byte{1, 2, 3, 255}, [2][2]int{{1, 2}, {3, 4}}, [][]int{{}, {1}, nil, {2, 3}},
		map[string]int{}, map[string]int(nil), map[string]int{"a": 1, "b": -2}, map[string]string{"a": "a"}, map[myString]myString{"a": "b"}, map[string][]byte{"a": []byte("a")},
		map[string]map[string]int{"a": {"a": 1, "b": 2}, "b": {"a": 3}}, map[string][]string{"a": {"a", "b"}}, []map[string]int{{"a": 1}, {"a": 2}, nil}, map[string]interface{}(nil), []interface{}(nil),
		map[interface{}]interface{}{"a": "b", myString("c"): 1}, map[interface{}]int{"a": 1}, []stringer{}, []error{nil}, myBytes{1, 2}, myMap{"a": 1}, myMap(nil), mySlice(nil), [1]myIface{3}, []myIface{"x", nil},
		map[string]float64{"pi": math.Pi}, map[string]bool{"t": true, "f": false}, map[string][2]int{"a": {1, 2}}, []([]interface{}){{1}, {}}, make([]int, 300), make([]string, 300), make([][]byte, 130), []byte(nil),
	}
}

func sizedValues() (r []interface{}) {
	for _, n := range lengths {
		r = append(r, filled(n), []byte(filled(n)), map[string]interface{}{filled(n): 1}, []interface{}{map[string]interface{}{filled(n): 1}, map[string]interface{}{filled(n): filled(n)}})
	}
	for _, n := range counts {
		s := make([]interface{}, n)
		m := map[string]interface{}{}
		for i := range s {
			s[i] = i & 7
			m[fmt.Sprint(i)] = i
		}
		r = append(r, s, m, make([]uint8, n), make([]int16, n), make([]string, n))
	}
	for _, n := range depths {
		var s, m, p interface{} = 7, 7, 7
		for i := 0; i < n; i++ {
			s, m = []interface{}{s}, map[string]interface{}{"k": m}
			if i&1 == 0 {
				p = mySlice{p}
			} else {
				p = myKeyMap{"a": p}
			}
		}
		r = append(r, s, m, p)
	}
	// offsets of keys that are repeated after so many bytes
	for _, n := range append(ints([2]int{90, 130}), append(ints([2]int{16360, 16390}), ints([2]int{2097130, 2097155})...)...) {
		r = append(r, []interface{}{filled(n), map[string]interface{}{"thekey": 1}, map[string]interface{}{"thekey": 2}, map[string]interface{}{"thekey": map[string]interface{}{"thekey": 3}}})
		r = append(r, []interface{}{map[string]interface{}{"thekey": filled(n)}, map[string]interface{}{"thekey": 2}})
	}
	return r
}

// valueSpaces are the spaces of values that P01 and P03 share.
func valueSpaces(thorough bool, check func(c *Ctx, t *T, k config, v interface{})) []Space {
	more := 0
	if thorough {
		more = 1
	}
	var scalar, sized []interface{}
	trees := func(name string, g valueGrammar, configs []config) Space {
		return Space{Name: name, What: fmt.Sprintf("all trees of at most %d values (%s), with %d encoders, all orders of map keys", g.tokens, name, len(configs)), Prog: func(c *Ctx, t *T) {
			v := g.value(c)
			k := oneOf(c, configs)
			order.Repeat(c)
			c.Ready()
			check(c, t, k, v)
		}}
	}
	fewer := []config{{version: 1}, {version: 3}, {version: 3, perl: true}, {version: 2, nodedup: true}}
	return []Space{
		{Name: "scalars", What: "values of all scalar types: integers of all widths around all powers of 2, floats of all exponents and special ones, short and odd strings, json.Numbers; in 6 positions, with all core encoders", Prog: func(c *Ctx, t *T) {
			if scalar == nil {
				scalar = scalars()
			}
			v := oneOf(c, positions)(oneOf(c, scalar))
			k := oneOf(c, coreConfigs)
			c.Ready()
			check(nil, t, k, v)
		}},
		{Name: "typed", What: "slices, arrays and maps of static types, in 6 positions, with all core encoders, all orders of map keys", Prog: func(c *Ctx, t *T) {
			v := oneOf(c, positions)(oneOf(c, typedContainers()))
			k := oneOf(c, coreConfigs)
			order.Repeat(c)
			c.Ready()
			check(c, t, k, v)
		}},
		{Name: "sizes", What: "strings, keys, slices, maps and nestings of all sizes up to a bound and around the powers of 128, repeated keys at such distances", Prog: func(c *Ctx, t *T) {
			if sized == nil {
				sized = sizedValues()
			}
			v := oneOf(c, sized)
			k := oneOf(c, twoConfigs)
			c.Ready()
			check(nil, t, k, v)
		}},
		{Name: "similar", What: "keys and strings of many lengths that differ in one byte, in their last or not at all but in length, next to each other, with 2 encoders", Prog: func(c *Ctx, t *T) {
			pair := oneOf(c, similarPairs())
			v := oneOf(c, similarValues)(pair[0], pair[1])
			k := oneOf(c, twoConfigs)
			c.Ready()
			check(nil, t, k, v)
		}},
		{Name: "configurations", What: fmt.Sprintf("few values with all %d configurations of encoders", len(allConfigs)), Prog: func(c *Ctx, t *T) {
			v := oneOf(c, []interface{}{nil, 1, "x", strings.Repeat("ab", 20), strings.Repeat("ab", 600), strings.Repeat("abc", 3000), []interface{}{}, []interface{}{1, "a", map[string]interface{}{"a": "a", "b": []byte("a")}, map[string]interface{}{"a": 2}, []byte("zz")}, map[string]interface{}{"a": map[string]interface{}{"a": nil}}, []string{"a", "b"}, make([]interface{}, 1023), make([]interface{}, 1024), filled(70000), []interface{}{filled(5000), map[string]interface{}{"a": 1}, map[string]interface{}{"a": 1}}})
			k := oneOf(c, allConfigs)
			c.Ready()
			check(nil, t, k, v)
		}},
		trees("trees", valueGrammar{tokens: 5 + more, maxKids: 3, leaves: fewScalars()[:4], keys: []string{"a", "b", ""}}, fewer),
		trees("typed trees", valueGrammar{tokens: 4 + more, maxKids: 2, leaves: fewScalars(), keys: []string{"a", "b", ""}, typed: true}, fewer),
		trees("maps", valueGrammar{tokens: 6 + more, maxKids: 3, leaves: []interface{}{7, "a"}, keys: []string{"a", "b", "ccc"}}, fewer[:2]),
	}
}

func p01(thorough bool) []Space {
	more := 0
	if thorough {
		more = 1
	}
	some := gen.SomeLeaves()
	return append(valueSpaces(thorough, p01value),
		decoded("decoded leaves", gen.Grammar{Tokens: 3, MaxKids: 2, Leaves: gen.AllLeaves(), Array: true, Hash: true, Inline: true}, []ref.Mode{{}, {NoRefs: true}}, p01value),
		decoded("decoded trees", gen.Grammar{Tokens: 4 + more, MaxKids: 3, Leaves: some, Array: true, Hash: true, Inline: true, Copy: true, Pad: true}, []ref.Mode{{}}, p01value),
	)
}

// decoded is the space of what documents decode to, encoded again.
func decoded(name string, g gen.Grammar, ms []ref.Mode, check func(c *Ctx, t *T, k config, v interface{})) Space {
	cs := []config{{version: 3}, {version: 1, nodedup: true}, {version: 3, perl: true}}
	return Space{Name: name, What: fmt.Sprintf("what all documents of at most %d items decode to as any value, with %d decoders and %d encoders", g.Tokens, len(ms), len(cs)), Prog: func(c *Ctx, t *T) {
		g := g
		g.Base = 1
		body := g.Body(c)
		m := oneOf(c, ms)
		k := oneOf(c, cs)
		c.Ready()
		doc := rawDoc(3, body)
		if d, err := ref.Parse(doc); err != nil || !settled(d.Feats) {
			t.Count(unsettled(d, err))
			return
		}
		v, err := decodeAny(newDecoder(m), doc)
		if err != nil {
			t.Count("not decoded")
			return
		}
		t.Count("encoded")
		check(nil, t, k, v)
	}}
}
