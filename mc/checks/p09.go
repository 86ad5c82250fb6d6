package checks

import (
	"fmt"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/order"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P09", Spaces: p09, Assumptions: []string{
		"Pointers to the inside of something (to a field or an element) lead to a copy of it after a round trip, as there is nothing in the format that they could be.",
		"Variables that hold the same map or slice without a pointer in between may come back as different ones.",
	}})
}

type (
	gPair struct {
		V    int
		A, B *gPair
	}
	gSlice struct {
		K []*gSlice
		V int
	}
	gMap struct {
		M map[string]*gMap
		V int
	}
	gMix struct {
		A *gMix
		K []*gMix
		M map[string]*gMix
		R [1]*gMix
	}
	gP struct {
		Q *gQ
		V int
	}
	gQ struct {
		P *gP
		R *gQ
	}
	gIn struct {
		N *gIn
		X int
	}
	gOut struct { // shares its address with its first field
		In gIn
		P  *gIn
		O  *gOut
	}
	gMaps struct {
		A, B *map[string]*gMaps
		V    int
	}
	gStrMaps struct {
		A, B *map[string]string
		C    *gStrMaps
		D    []*map[string]string
	}
)

// heap makes k nodes and links.
type linker struct {
	c *Ctx
	k int
}

func (l linker) pick(self int) int { return l.c.Choose(l.k + 1) } // k: nil

func linkPairs(c *Ctx, k int) interface{} {
	ns := make([]*gPair, k+1)
	for i := 0; i < k; i++ {
		ns[i] = &gPair{V: i}
	}
	for i := 0; i < k; i++ {
		ns[i].A, ns[i].B = ns[c.Choose(k+1)], ns[c.Choose(k+1)]
	}
	return ns[0]
}

func linkSlices(c *Ctx, k int) interface{} {
	ns := make([]*gSlice, k+1)
	for i := 0; i < k; i++ {
		ns[i] = &gSlice{V: i}
	}
	for i := 0; i < k; i++ {
		for n := c.Choose(3); n > 0; n-- {
			ns[i].K = append(ns[i].K, ns[c.Choose(k+1)])
		}
	}
	return ns[0]
}

func linkMaps(c *Ctx, k int) interface{} {
	ns := make([]*gMap, k+1)
	for i := 0; i < k; i++ {
		ns[i] = &gMap{V: i}
	}
	for i := 0; i < k; i++ {
		if n := c.Choose(3); n > 0 {
			ns[i].M = map[string]*gMap{"a": ns[c.Choose(k+1)]}
			if n > 1 {
				ns[i].M["b"] = ns[c.Choose(k+1)]
			}
		}
	}
	return ns[0]
}

func linkMixed(c *Ctx, k int) interface{} {
	ns := make([]*gMix, k+1)
	for i := 0; i < k; i++ {
		ns[i] = &gMix{}
	}
	for i := 0; i < k; i++ {
		ns[i].A = ns[c.Choose(k+1)]
		ns[i].R[0] = ns[c.Choose(k+1)]
		if n := c.Choose(k + 2); n <= k {
			ns[i].K = []*gMix{ns[n]}
		}
		if n := c.Choose(k + 2); n <= k {
			ns[i].M = map[string]*gMix{"V": ns[n]}
		}
	}
	return ns[0]
}

func linkPQ(c *Ctx, k int) interface{} {
	ps, qs := make([]*gP, k+1), make([]*gQ, k+1)
	for i := 0; i < k; i++ {
		ps[i], qs[i] = &gP{V: i}, &gQ{}
	}
	for i := 0; i < k; i++ {
		ps[i].Q = qs[c.Choose(k+1)]
		qs[i].P, qs[i].R = ps[c.Choose(k+1)], qs[c.Choose(k+1)]
	}
	if c.Bool() {
		return qs[0]
	}
	return ps[0]
}

func linkOut(c *Ctx, k int) interface{} {
	ns := make([]*gOut, k+1)
	ins := make([]*gIn, 2*k+1)
	for i := 0; i < k; i++ {
		ns[i] = &gOut{}
		ns[i].In.X = i + 10
		ins[k+i] = &gIn{X: i}
	}
	for i := 0; i < k; i++ {
		// pointers to the inside come back as pointers to a copy: not among these
		ns[i].O = ns[c.Choose(k+1)]
		ns[i].P = ins[k+c.Choose(k+1)]
		ns[i].In.N = ins[k+c.Choose(k+1)]
		ins[k+i].N = ins[k+c.Choose(k+1)]
	}
	return ns[0]
}

func linkMapPtrs(c *Ctx, k int) interface{} {
	ns := make([]*gMaps, k+1)
	ms := make([]*map[string]*gMaps, k+1)
	for i := 0; i < k; i++ {
		ns[i] = &gMaps{V: i}
		ms[i] = &map[string]*gMaps{}
	}
	for i := 0; i < k; i++ {
		ns[i].A, ns[i].B = ms[c.Choose(k+1)], ms[c.Choose(k+1)]
		(*ms[i])["x"] = ns[c.Choose(k+1)]
	}
	return ns[0]
}

func linkStrMaps(c *Ctx, k int) interface{} {
	ns := make([]*gStrMaps, k+1)
	ms := make([]*map[string]string, k+1)
	for i := 0; i < k; i++ {
		ns[i] = &gStrMaps{}
		ms[i] = &map[string]string{"A": fmt.Sprint(i)}
	}
	for i := 0; i < k; i++ {
		ns[i].A, ns[i].B, ns[i].C = ms[c.Choose(k+1)], ms[c.Choose(k+1)], ns[c.Choose(k+1)]
		if n := c.Choose(k + 2); n <= k {
			ns[i].D = []*map[string]string{ms[n]}
		}
	}
	return ns[0]
}

// roots puts a pointer into variables of several types.
func roots(v interface{}) []interface{} {
	rv := reflect.ValueOf(v)
	s := reflect.MakeSlice(reflect.SliceOf(rv.Type()), 2, 2)
	s.Index(0).Set(rv)
	s.Index(1).Set(rv)
	m := reflect.MakeMap(reflect.MapOf(stringType, rv.Type()))
	m.SetMapIndex(reflect.ValueOf("r"), rv)
	st := reflect.New(reflect.StructOf([]reflect.StructField{field("X", rv.Type(), ""), field("Y", rv.Type(), "")})).Elem()
	st.Field(0).Set(rv)
	st.Field(1).Set(rv)
	return []interface{}{v, s.Interface(), m.Interface(), st.Interface(), rv.Elem().Interface()}
}

func p09typed(c *Ctx, t *T, k config, v interface{}) {
	doc, err := k.marshal(c, nil, v)
	if err != nil {
		t.Failf("%v: %s: %v", k, ref.Show(v), err)
		return
	}
	t.Sample(func() string { return k.String() + " " + ref.Show(v) + " is " + hexdump(doc) })
	got := reflect.New(reflect.TypeOf(v))
	if err = safe(func() error { return sereal.Unmarshal(doc, got.Interface()) }); err == nil {
		err = sameShape(reflect.ValueOf(v), got.Elem())
	}
	if err != nil {
		t.Failf("%v: %s, encoded as %s: %v", k, ref.Show(v), hexdump(doc), err)
	}
	// and into an interface: the same maps and slices
	p09untyped(nil, t, k, v)
}

func p09untyped(c *Ctx, t *T, k config, v interface{}) {
	doc, err := k.marshal(c, nil, v)
	if err != nil {
		t.Failf("%v: %s: %v", k, ref.Show(v), err)
		return
	}
	t.Sample(func() string { return k.String() + " " + ref.Show(v) + " is " + hexdump(doc) })
	got, err := decodeAny(sereal.NewDecoder(), doc)
	if err == nil {
		err = ref.SameDecoded(ref.GraphOf(v, k.graphOpts()), got, ref.Mode{Loose: true})
	}
	if err != nil {
		t.Failf("%v: %s, encoded as %s: %v", k, ref.Show(v), hexdump(doc), err)
	}
}

func p09(thorough bool) []Space {
	more := 0
	if thorough {
		more = 1
	}
	cs := []config{{version: 3}, {version: 1, perl: true}, {version: 2, nodedup: true}}
	var r []Space
	typed := func(name string, link func(*Ctx, int) interface{}, k int, n int) {
		r = append(r, Space{Name: name, What: fmt.Sprintf("all graphs of up to %d nodes (%s), below 5 kinds of roots, %d encoders", k, name, n), Prog: func(c *Ctx, t *T) {
			v := link(c, 1+c.Choose(k))
			i := c.Choose(5)
			cfg := oneOf(c, cs[:n])
			c.Ready()
			p09typed(nil, t, cfg, roots(v)[i])
		}})
	}
	typed("pairs", linkPairs, 3+more, 3)
	typed("slices", linkSlices, 3+more, 2)
	typed("maps", linkMaps, 3, 2)
	typed("mixed", linkMixed, 2, 3)
	typed("two types", linkPQ, 2+more, 3)
	typed("same addresses", linkOut, 2, 3)
	typed("pointers to maps", linkMapPtrs, 2+more, 3)
	typed("pointers to maps of strings", linkStrMaps, 2, 3)
	r = append(r, Space{Name: "orders", What: "all graphs of up to 2 nodes of 4 kinds, in all orders of fields and keys", Prog: func(c *Ctx, t *T) {
		k := 1 + c.Choose(2)
		v := oneOf(c, []func(*Ctx, int) interface{}{linkPairs, linkMaps, linkOut, linkPQ})(c, k)
		cfg := oneOf(c, cs[:1+more])
		i := c.Choose(2 + 3*more)
		order.Repeat(c)
		c.Ready()
		p09typed(c, t, cfg, roots(v)[i])
	}})
	untyped := func(name string, g heapGrammar, orders bool) {
		r = append(r, Space{Name: "untyped " + name, What: fmt.Sprintf("all graphs of at most %d values with pointers (%s), decoded into an interface, %d encoders", g.tokens, name, len(cs)), Prog: func(c *Ctx, t *T) {
			v := g.value(c)
			cfg := oneOf(c, cs)
			if orders {
				order.Repeat(c)
			}
			c.Ready()
			if orders {
				p09untyped(c, t, cfg, v)
			} else {
				p09untyped(nil, t, cfg, v)
			}
		}})
	}
	untyped("boxes", heapGrammar{tokens: 6 + more, maxKids: 3, leaves: []interface{}{"a"}, slices: true, boxes: true}, false)
	untyped("pointers to containers", heapGrammar{tokens: 5 + more, maxKids: 2, leaves: []interface{}{7}, slices: true, maps: true, pslices: true, pmaps: true}, true)
	untyped("pointers to pointers", heapGrammar{tokens: 5 + more, maxKids: 2, leaves: []interface{}{7}, slices: true, boxes: true, pslices: true, pmaps: true, ppp: true}, false)
	untyped("structs", heapGrammar{tokens: 5 + more, maxKids: 2, leaves: []interface{}{7}, slices: true, structs: true, boxes: true, pmaps: true}, true)
	return append(append(r, p09same(thorough)...), p09sizes(thorough, cs)...)
}
