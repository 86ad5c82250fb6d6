package checks

import (
	"fmt"
)

type (
	sameIn    struct{ X, Y int }
	sameOut   struct{ In sameIn }
	sameNamed []interface{}
	sameText  string
)

// coincidences are values that have their memory, or the start of it, in
// common with others.
func coincidences() (r []interface{}) {
	add := func(vs ...interface{}) { r = append(r, vs...) }
	list := []interface{}{1, "two", nil}
	l0, l1, l2, l2b, l3 := list[:0], list[:1], list[:2], list[:2], list
	tail := list[1:]
	named := sameNamed(list[:2])
	add(&l0, &l1, &l2, &l2b, &l3, &tail, &named, l1, l2, named, &list[0])
	ints := []int{4, 5, 6}
	i1, i2, i2b := ints[:1], ints[:2], ints[:2]
	arr := (*[2]int)(ints)
	arr1 := (*[1]int)(ints)
	add(&i1, &i2, &i2b, arr, arr1, &ints[0], &ints[1], i2)
	o := &sameOut{sameIn{7, 8}}
	os := []sameOut{{}, {sameIn{1, 2}}}
	os1 := os[:1]
	add(o, &o.In, &o.In.X, &o.In.Y, &os, &os1, &os[0], &os[1], &os[1].In)
	text := "abcdef"
	t2, t4, t4b, tt := text[:2], text[:4], text[:4], sameText(text[:4])
	add(&t2, &t4, &t4b, &tt, t4)
	m := map[string]interface{}{"k": 1}
	m2 := m
	add(&m, &m2, m)
	e1, e2 := &struct{}{}, &struct{}{}
	z1, z2 := &[0]int{}, &[0]string{}
	n1, n2 := []int(nil), []string(nil)
	add(e1, e2, z1, z2, &n1, &n2, (*int)(nil), (*string)(nil))
	var face interface{} = l2
	var face1 interface{} = l1
	add(&face, &face1)
	pl := &l2
	add(&pl, &o)
	return r
}

func p09same(thorough bool) (r []Space) {
	menu := coincidences()
	max := 3
	if thorough {
		max = 4
	}
	cs := []config{{version: 3}, {version: 1, perl: true}, {version: 2, nodedup: true, perl: true}}
	r = append(r, Space{Name: "coincidences", What: fmt.Sprintf("all lists of up to %d out of %d values whose addresses are the same though they are not: slices and their prefixes, structs, arrays and what they start with, strings and their prefixes, other types for the same memory, nothing at all", max, len(menu)), Prog: func(c *Ctx, t *T) {
		n := 1 + c.Choose(max)
		var v []interface{}
		for i := 0; i < n; i++ {
			v = append(v, oneOf(c, menu))
		}
		k := cs[0]
		if n < max {
			k = oneOf(c, cs)
		}
		c.Ready()
		p03value(nil, t, k, v)
		p09untyped(nil, t, k, v)
	}})
	return r
}
