package checks

import (
	"fmt"
	"reflect"

	"verif/mc/gen"
	"verif/mc/order"
)

func p03(thorough bool) []Space {
	more := 0
	if thorough {
		more = 1
	}
	r := valueSpaces(thorough, p03value)
	for _, sp := range typedSpaces(thorough, func(c *Ctx, t *T, k config, v reflect.Value) { p03value(c, t, k, v.Interface()) }) {
		sp.Name = "typed " + sp.Name
		r = append(r, sp)
	}
	graph := func(name string, g heapGrammar, configs []config, orders bool) {
		r = append(r, Space{Name: name, What: fmt.Sprintf("all graphs of at most %d values with pointers (%s), %d encoders", g.tokens, name, len(configs)), Prog: func(c *Ctx, t *T) {
			v := g.value(c)
			k := oneOf(c, configs)
			if orders {
				order.Repeat(c)
			}
			c.Ready()
			if orders {
				p03value(c, t, k, v)
			} else {
				p03value(nil, t, k, v)
			}
		}})
	}
	cs := []config{{version: 3}, {version: 1, perl: true}, {version: 2, nodedup: true}}
	graph("boxes", heapGrammar{tokens: 6 + more, maxKids: 3, leaves: []interface{}{nil, "a"}, slices: true, boxes: true, strs: true}, cs[:2], false)
	graph("pointers to containers", heapGrammar{tokens: 5 + more, maxKids: 2, leaves: []interface{}{7}, slices: true, maps: true, pslices: true, pmaps: true}, cs, true)
	graph("pointers to pointers", heapGrammar{tokens: 6 + more, maxKids: 2, leaves: []interface{}{7}, slices: true, boxes: true, pslices: true, ppp: true}, cs[:2], false)
	graph("structs with pointers", heapGrammar{tokens: 5 + more, maxKids: 2, leaves: []interface{}{7}, slices: true, structs: true, boxes: true, pmaps: true}, cs, true)
	graph("Perl", heapGrammar{tokens: 5 + more, maxKids: 2, leaves: []interface{}{nil, "Cls"}, slices: true, maps: true, boxes: true, perl: true}, cs, false)
	graph("Perl and pointers", heapGrammar{tokens: 4 + more, maxKids: 2, leaves: []interface{}{"Cls"}, slices: true, maps: true, boxes: true, pslices: true, pmaps: true, perl: true, structs: true, strs: true, ppp: true}, cs, true)
	graph("shared containers", heapGrammar{tokens: 5 + more, maxKids: 2, leaves: []interface{}{7}, slices: true, maps: true, pslices: true, pmaps: true, boxes: true, noCycles: true, shallow: true}, cs, true)
	r = append(r, Space{Name: "similar names", What: "class names, frozen data, fields and pointers to strings of many lengths that differ in little, with 2 encoders", Prog: func(c *Ctx, t *T) {
		pair := oneOf(c, similarPairs())
		v := oneOf(c, append(similarPerl[:len(similarPerl):len(similarPerl)], similarStruct))(pair[0], pair[1])
		k := oneOf(c, twoConfigs)
		c.Ready()
		p03value(nil, t, k, v)
	}})
	header := heapGrammar{tokens: 3, maxKids: 2, leaves: []interface{}{nil, "a", 300}, slices: true, maps: true, pmaps: true, structs: true}
	r = append(r, Space{Name: "headers", What: "pairs of header data and body of at most 3 values each, all core encoders", Prog: func(c *Ctx, t *T) {
		h, v := header.value(c), header.value(c)
		k := oneOf(c, coreConfigs)
		c.Ready()
		if h == nil {
			return
		}
		doc, err := k.marshal(nil, h, v)
		if err != nil {
			t.Failf("%v: %v", k, err)
			return
		}
		p03doc(t, k, h, v, doc)
	}})
	everything := gen.Grammar{Tokens: 4 + more, MaxKids: 2, Leaves: [][]byte{{0x25}, {7}, gen.Short("b"), {0x39}, {0x3a}}, Array: true, Hash: true, Inline: true, Refn: true, Refp: true, Copy: true, Object: true, Freeze: true, Weak: true, Regexp: true, Pad: true}
	references := gen.Grammar{Tokens: 5 + more, MaxKids: 3, Leaves: [][]byte{{7}}, Array: true, Hash: true, Refn: true, Refp: true, Object: true}
	return append(r, decoded("decoded documents", everything, modes[:2], p03value), decoded("decoded references", references, modes[:2], p03value))
}
