package checks

import (
	"fmt"
	"reflect"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/order"
)

// Instances that have done the same thing very often, or something very large,
// have to do whatever comes next as new ones do.

// many are numbers of calls around limits that something could have.
func many(thorough bool) []int {
	r := []int{15, 16, 17, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 4096, 4097}
	if thorough {
		r = append(r, 8192, 10001, 16385, 32769, 65535, 65536, 65537)
	}
	return r
}

// huge are values that make everything that grows grow.
func huge(n int) map[string]interface{} {
	keys, shared, same := map[string]interface{}{}, []interface{}{}, []interface{}{}
	p := &[]interface{}{1}
	for i := 0; i < n; i++ {
		keys[fmt.Sprint("key ", i)] = i
		shared = append(shared, &[]interface{}{}, p)
		same = append(same, "key", sereal.PerlObject{Class: fmt.Sprint("Class ", i), Reference: p})
	}
	return map[string]interface{}{"many keys": keys, "many pointers": shared, "many strings and classes": same, "long string": strings.Repeat("key val", n), "noise": noise(8 * n)}
}

var hugeNames = []string{"many keys", "many pointers", "many strings and classes", "long string", "noise"}

func p12worn(thorough bool) []Space {
	enc, dec := encoderCalls(), decoderCalls()
	times := many(thorough)
	configs := []config{{version: 1, perl: true}, {version: 3}, {version: 3, comp: gen.Zlib}, {version: 2, comp: gen.SnappyIncr, perl: true}, {version: 3, depth: 9, nodedup: true, expected: 64}}
	values := func(k config, calls []*call) (r []*call) {
		for _, c := range calls {
			if c.set == nil && (c.name != "cycle without pointers" || k.depth > 0) {
				r = append(r, c)
			}
		}
		return
	}
	pairs := []int{9, 33, 130, 260}
	wear := func(k config, e *sereal.Encoder, c *call, n int) {
		for ; n > 0; n-- {
			safe(func() (err error) {
				order.Explore(nil, func() {
					if c.hasHdr {
						_, err = e.MarshalWithHeader(c.header, c.value)
					} else {
						_, err = e.Marshal(c.value)
					}
				})
				return
			})
		}
	}
	all := func(t *T, k config, e *sereal.Encoder, before string) {
		for _, c := range values(k, enc) {
			got, err := c.encode(e)
			want, werr := c.encode(k.encoder())
			if !sameError(err, werr) {
				t.Failf("%v: after %s: %s: %v, with a new encoder %v", k, before, c.name, err, werr)
			} else if err == nil && string(got) != string(want) {
				t.Failf("%v: after %s: %s: %s, with a new encoder %s", k, before, c.name, hexdump(got), hexdump(want))
			}
			t.Count("encoded")
		}
	}
	var r []Space
	r = append(r, Space{Name: "worn encoder", What: fmt.Sprintf("each call up to %d times (all numbers around the powers of 2), then all calls, on one encoder of %d", times[len(times)-1], len(configs)), Prog: func(c *Ctx, t *T) {
		k := oneOf(c, configs)
		x := oneOf(c, values(k, enc))
		n := oneOf(c, times)
		c.Ready()
		e := k.encoder()
		wear(k, e, x, n)
		all(t, k, e, fmt.Sprintf("%d times %s", n, x.name))
	}}, Space{Name: "worn by two", What: fmt.Sprintf("all pairs of calls up to %d times, then all calls, on one encoder of %d", pairs[len(pairs)-1], len(configs)), Prog: func(c *Ctx, t *T) {
		k := oneOf(c, configs)
		x, y := oneOf(c, values(k, enc)), oneOf(c, values(k, enc))
		n := oneOf(c, pairs)
		c.Ready()
		e := k.encoder()
		for i := 0; i < n; i++ {
			wear(k, e, x, 1)
			wear(k, e, y, 1)
		}
		all(t, k, e, fmt.Sprintf("%d times %s and %s", n, x.name, y.name))
	}}, Space{Name: "very worn encoder", What: "simple values 66000 times, then all calls, on one encoder", Prog: func(c *Ctx, t *T) {
		k := oneOf(c, configs[:2])
		x := oneOf(c, []*call{{name: "7", value: 7}, {name: "key", value: "key"}, {name: "channel", value: make(chan int)}, {name: "object", value: sereal.PerlObject{Class: "key", Reference: []interface{}{"key"}}}, {name: "header", value: 7, header: "key", hasHdr: true}})
		c.Ready()
		e := k.encoder()
		wear(k, e, x, 66000)
		all(t, k, e, "66000 times "+x.name)
	}}, Space{Name: "encoder after huge", What: "large values (keys, pointers, classes, strings), which succeed or fail at their end, then all calls, on one encoder", Prog: func(c *Ctx, t *T) {
		k := oneOf(c, configs)
		name := oneOf(c, hugeNames)
		n := oneOf(c, []int{200, 3000, 40000})
		bad := c.Bool()
		c.Ready()
		v := huge(n)[name]
		if bad {
			v = []interface{}{v, make(chan int)}
		}
		e := k.encoder()
		wear(k, e, &call{value: v}, 2)
		all(t, k, e, fmt.Sprintf("%d %s", n, name))
	}}, Space{Name: "encoder after types", What: "values of up to 5000 struct types in one encoder and decoder, then all of them again", Prog: func(c *Ctx, t *T) {
		n := oneOf(c, []int{10, 70, 300, 5000})
		c.Ready()
		e, d := sereal.NewEncoderV3(), sereal.NewDecoder()
		var types []reflect.Type
		for i := 0; i < n; i++ {
			types = append(types, reflect.StructOf([]reflect.StructField{
				{Name: "A", Type: reflect.TypeOf(0), Tag: reflect.StructTag(fmt.Sprintf(`sereal:"a%d"`, i))},
				{Name: "B", Type: reflect.TypeOf(""), Tag: reflect.StructTag(fmt.Sprintf(`sereal:"a%d"`, i+1))},
			}))
		}
		for round := 0; round < 2; round++ {
			for i, typ := range types {
				v := reflect.New(typ).Elem()
				v.Field(0).SetInt(int64(i))
				v.Field(1).SetString("x")
				doc, err := e.Marshal(v.Interface())
				got, m := reflect.New(typ), map[string]interface{}{}
				if err == nil {
					if err = d.Unmarshal(doc, got.Interface()); err == nil {
						err = d.Unmarshal(doc, &m)
					}
				}
				if err != nil {
					t.Failf("type %d of %d: %v", i, n, err)
					return
				}
				a, b := fmt.Sprint("a", i), fmt.Sprint("a", i+1)
				if got.Elem().Interface() != v.Interface() || len(m) != 2 || m[a] != i || m[b] != "x" && fmt.Sprintf("%s", m[b]) != "x" {
					t.Failf("type %d of %d: %v became %v and %v", i, n, v, got.Elem(), m)
					return
				}
			}
		}
		t.Count(fmt.Sprintf("%d types", n))
	}})

	// decoders
	var ms = modes
	then := func(t *T, u *reuse) {
		for _, c := range dec {
			if c.mode == nil && c.regist == "" && !u.do(c) {
				return
			}
		}
	}
	r = append(r, Space{Name: "worn decoder", What: fmt.Sprintf("each call up to %d times, then all calls, on one decoder", times[len(times)-1]), Prog: func(c *Ctx, t *T) {
		u := &reuse{t: t, m: oneOf(c, ms)}
		u.d = newDecoder(u.m)
		x := oneOf(c, dec)
		n := oneOf(c, times)
		c.Ready()
		if x.mode != nil || x.regist != "" {
			return
		}
		for i := 0; i < n; i++ {
			x.decode(u.d)
		}
		u.names = append(u.names, fmt.Sprintf("%d times %s", n, x.name))
		then(t, u)
	}}, Space{Name: "decoder worn by two", What: fmt.Sprintf("all pairs of calls up to %d times, then all calls, on one decoder", pairs[len(pairs)-1]), Prog: func(c *Ctx, t *T) {
		u := &reuse{t: t, m: oneOf(c, ms)}
		u.d = newDecoder(u.m)
		x, y := oneOf(c, dec), oneOf(c, dec)
		n := oneOf(c, pairs)
		c.Ready()
		if x.mode != nil || x.regist != "" || y.mode != nil || y.regist != "" {
			return
		}
		for i := 0; i < n; i++ {
			x.decode(u.d)
			y.decode(u.d)
		}
		u.names = append(u.names, fmt.Sprintf("%d times %s and %s", n, x.name, y.name))
		then(t, u)
	}}, Space{Name: "very worn decoder", What: "small documents 66000 times, then all calls, on one decoder", Prog: func(c *Ctx, t *T) {
		u := &reuse{t: t, m: oneOf(c, ms[:2])}
		u.d = newDecoder(u.m)
		x := oneOf(c, dec[:24])
		c.Ready()
		if x.mode != nil || x.regist != "" {
			return
		}
		for i := 0; i < 66000; i++ {
			x.decode(u.d)
		}
		u.names = append(u.names, "66000 times "+x.name)
		then(t, u)
	}}, Space{Name: "decoder after huge", What: "large documents (keys, references, classes, strings), which succeed or break off at their end, then all calls, on one decoder", Prog: func(c *Ctx, t *T) {
		u := &reuse{t: t, m: oneOf(c, ms)}
		u.d = newDecoder(u.m)
		name := oneOf(c, hugeNames)
		n := oneOf(c, []int{200, 3000, 40000})
		less := c.Choose(2)
		into := oneOf(c, []reflect.Type{anyType, reflect.TypeOf([]interface{}{}), reflect.TypeOf(map[string]interface{}{})})
		c.Ready()
		doc, err := config{version: 3}.encoder().Marshal(huge(n)[name])
		if err != nil {
			t.Failf("%v", err)
			return
		}
		x := &call{doc: doc[:len(doc)-less], into: into}
		x.decode(u.d)
		x.decode(u.d)
		u.names = append(u.names, fmt.Sprintf("%d %s", n, name))
		then(t, u)
	}})
	return r
}

func p11worn(thorough bool, good, bads [][]byte) []Space {
	times := many(thorough)
	return []Space{{Name: "worn", What: fmt.Sprintf("one bad document up to %d times (all numbers around the powers of 2; and 66000 times) between good ones, and two good ones as often", times[len(times)-1]), Prog: func(c *Ctx, t *T) {
		x := oneOf(c, bads)
		n := oneOf(c, append([]int{66000}, times...))
		i := c.Choose(16)
		pos := c.Choose(3)
		c.Ready()
		if n > 60000 && i%5 != 1 {
			return
		}
		h := historyNo(t, i)
		before := func() {
			for _, d := range good {
				h.append(d)
			}
		}
		if pos > 0 {
			before()
		}
		for k := 0; k < n; k++ {
			if err := safe(func() error { _, err := h.m.Append(x); return err }); err == nil || isPanic(err) {
				h.fail("Append %s: %v", hexdump(x), err)
				return
			}
			if pos == 2 && k%64 == 0 && k < 2000 {
				h.append(good[k/64%len(good)])
			}
		}
		h.steps = append(h.steps, fmt.Sprintf("%d times Append %s", n, hexdump(x)))
		before()
		h.finish()
		t.Count(fmt.Sprintf("%d times", n))
	}}}
}
