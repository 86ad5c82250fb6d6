package checks

import (
	"fmt"
	"reflect"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/ref"
)

type (
	gFar struct {
		Fill string
		A    *gFar
		M    map[string]*gFar
		K    []*gFar
		P    *map[string]string
		B    *gFar
	}
)

// bigGraphs are shapes of pointers of every size.
var bigGraphs = []struct {
	name string
	make func(n int) interface{}
}{
	{"ring", func(n int) interface{} {
		ns := make([]gPair, n)
		for i := range ns {
			ns[i].V, ns[i].A = i, &ns[(i+1)%n]
		}
		return &ns[0]
	}},
	{"chain in both directions", func(n int) interface{} {
		first := &gPair{}
		for i, last := 1, first; i < n; i++ {
			last.A = &gPair{V: i, B: last}
			last = last.A
		}
		return first
	}},
	{"chain whose last refers to the middle", func(n int) interface{} {
		ns := make([]gPair, n)
		for i := range ns {
			if ns[i].V = i; i > 0 {
				ns[i-1].A = &ns[i]
			}
		}
		ns[n-1].B = &ns[n/2]
		return &ns[0]
	}},
	{"ladder of which each rung is reached twice", func(n int) interface{} {
		var p *gPair
		for i := 0; i < n; i++ {
			p = &gPair{V: i, A: p, B: p}
		}
		return p
	}},
	{"all to one", func(n int) interface{} {
		r, x := &gSlice{V: n}, &gSlice{V: -1}
		for i := 0; i < n; i++ {
			r.K = append(r.K, x)
		}
		return r
	}},
	{"all to the parent", func(n int) interface{} {
		r := &gSlice{V: n}
		for i := 0; i < n; i++ {
			r.K = append(r.K, &gSlice{V: i, K: []*gSlice{r}})
		}
		return r
	}},
	{"each twice", func(n int) interface{} {
		r := &gSlice{V: n}
		for i := 0; i < n; i++ {
			r.K = append(r.K, &gSlice{V: i})
		}
		r.K = append(r.K, r.K...)
		return r
	}},
	{"map of each twice", func(n int) interface{} {
		r := &gMap{M: map[string]*gMap{}}
		for i := 0; i < n; i++ {
			x := &gMap{V: i}
			r.M[fmt.Sprint("a", i)], r.M[fmt.Sprint("b", i)] = x, x
		}
		return r
	}},
	{"maps through pointers", func(n int) interface{} {
		m := map[string]*gMaps{}
		r := &gMaps{A: &m, B: &m}
		for i := 0; i < n; i++ {
			m[fmt.Sprint(i)] = &gMaps{A: &m, V: i}
		}
		return r
	}},
}

// farGraphs put n bytes between a pointer and another one to the same.
var farGraphs = []struct {
	name string
	make func(n, front int) interface{}
}{
	{"behind a field", func(n, front int) interface{} {
		x := &gFar{Fill: "x"}
		return &gFar{Fill: filled(front), A: &gFar{Fill: filled(n), A: x}, B: x}
	}},
	{"to the top", func(n, front int) interface{} {
		r := &gFar{Fill: filled(front)}
		r.A = &gFar{Fill: filled(n), B: r}
		return r
	}},
	{"to itself", func(n, front int) interface{} {
		x := &gFar{Fill: filled(n)}
		x.B = x
		return &gFar{Fill: filled(front), A: x}
	}},
	{"from a list", func(n, front int) interface{} {
		x := &gFar{Fill: "x"}
		return &gFar{Fill: filled(front), K: []*gFar{x, {Fill: filled(n)}, x, nil, x}}
	}},
	{"from a map", func(n, front int) interface{} {
		x := &gFar{Fill: filled(n)}
		return &gFar{Fill: filled(front), M: map[string]*gFar{"a": x, "bb": x}, B: x}
	}},
	{"to a map", func(n, front int) interface{} {
		m := &map[string]string{"k": filled(n)}
		return &gFar{Fill: filled(front), P: m, B: &gFar{P: m}}
	}},
}

func p09sizes(thorough bool, cs []config) []Space {
	sizes := append(ints([2]int{1, 140}, [2]int{254, 258}, [2]int{1023, 1025}), 5000)
	fills := append([]int{0, 1}, ints([2]int{20, 135}, [2]int{16300, 16390})...)
	if thorough {
		sizes = append(sizes, 16384, 40000)
		fills = append(ints([2]int{0, 300}, [2]int{16000, 16500}), ints([2]int{2097100, 2097160})...)
	}
	tokens := 8
	if thorough {
		tokens++
	}
	return []Space{
		p09decoded(gen.Grammar{Tokens: tokens, MaxKids: 2, Leaves: [][]byte{{0x25}}, Array: true, Hash: true, Refn: true, Refp: true}, cs[:2]),
		{Name: "large graphs", What: fmt.Sprintf("rings, chains, stars, ladders and lists of pointers, %d shapes of %d sizes up to %d, below 5 kinds of roots, %d encoders", len(bigGraphs), len(sizes), sizes[len(sizes)-1], len(cs)), Prog: func(c *Ctx, t *T) {
			g := oneOf(c, bigGraphs)
			n := oneOf(c, sizes)
			i := c.Choose(5)
			k := oneOf(c, cs)
			c.Ready()
			p09typed(nil, t, k, roots(g.make(n))[i])
		}},
		{Name: "distances", What: fmt.Sprintf("pointers to the same struct or map with up to %d bytes in between, %d shapes, %d encoders", fills[len(fills)-1], len(farGraphs), len(cs)), Prog: func(c *Ctx, t *T) {
			g := oneOf(c, farGraphs)
			n := oneOf(c, fills)
			front := oneOf(c, []int{0, 100, 16384})
			k := oneOf(c, cs)
			c.Ready()
			p09typed(nil, t, k, g.make(n, front))
		}},
	}
}

// p09decoded is the space of what documents decode to in variables with
// pointers, encoded again.
func p09decoded(g gen.Grammar, cs []config) Space {
	var types []reflect.Type
	for _, v := range []interface{}{&abcPair{}, []*abcPair{}, map[string]*abcPair{}, &map[string]*abcPair{}, []*map[string]int{}} {
		types = append(types, reflect.TypeOf(v))
	}
	return Space{Name: "decoded", What: fmt.Sprintf("what all documents of at most %d items decode to in variables of %d types with pointers, encoded again by %d encoders", g.Tokens, len(types), len(cs)), Prog: func(c *Ctx, t *T) {
		g := g
		g.Base = 1
		body := g.Body(c)
		c.Ready()
		doc := rawDoc(3, body)
		if d, err := ref.Parse(doc); err != nil || !settled(d.Feats) {
			t.Count(unsettled(d, err))
			return
		}
		for _, typ := range types {
			v := reflect.New(typ)
			if err := safe(func() error { return sereal.Unmarshal(doc, v.Interface()) }); err != nil {
				t.Count("not decoded")
				continue
			}
			t.Count("encoded")
			for _, k := range cs {
				p09typed(nil, t, k, v.Elem().Interface())
			}
		}
	}}
}

type abcPair struct {
	A *abcPair
	B *abcPair
	C map[string]*abcPair
	N int `sereal:"d"`
}
