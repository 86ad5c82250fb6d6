package checks

import (
	"fmt"
	"math"
	"reflect"
	"strings"
)

type (
	sizedKey struct {
		Thekey int
		Other  string
	}
	sizedPtr struct {
		N int
		P *sizedPtr
	}
	sizedFar struct {
		Fill string
		A    *sizedKey
		Mid  []byte
		B    *sizedKey
		C    sizedKey
		D    map[string]sizedKey
	}
	sizedMapPtr struct {
		A    *map[string]int
		Fill string
		B    *map[string]int
	}
	sizedIface struct {
		A    interface{}
		Fill []byte
		B    interface{}
		C    []sizedKey
	}
)

// manyFields is a struct of n fields, with names as long as asked for.
func manyFields(n, nameLen int, t reflect.Type) reflect.Value {
	var fs []reflect.StructField
	for i := 0; i < n; i++ {
		name, tag := fmt.Sprintf("F%d", i), ""
		if nameLen > 0 && i%2 == 0 {
			long := fmt.Sprintf("f%d", i)
			tag = fmt.Sprintf("sereal:%q", long+strings.Repeat("x", nameLen-len(long)))
		}
		fs = append(fs, field(name, t, tag))
	}
	v := reflect.New(reflect.StructOf(fs)).Elem()
	for i := 0; i < n; i++ {
		if f := v.Field(i); f.Kind() == reflect.String {
			f.SetString(fmt.Sprint(i))
		} else {
			f.SetInt(int64(i & 127))
		}
	}
	return v
}

// typedSizes are typed values with something of every size around the places
// where varints grow.
func typedSizes() (r []reflect.Value) {
	add := func(vs ...interface{}) {
		for _, v := range vs {
			r = append(r, reflect.ValueOf(v))
		}
	}
	for _, n := range lengths {
		s := filled(n)
		add(s, myString(s), []byte(s), []string{s, "x", s}, [2]string{s, s}, map[string]int{s: 1}, map[myString][]byte{myString(s): []byte(s)},
			[]map[string]int{{s: 1}, {s: 2}}, taggedS{A: n, B: s, C: []byte(s)}, []taggedS{{B: s}, {C: []byte(s)}}, sizedIface{A: s, B: []byte(s)}, [2]plainS{{n, -n}, {-n, n}})
		if n > 0 && n < 20000 {
			st := reflect.StructOf([]reflect.StructField{field("A", reflect.TypeOf(0), fmt.Sprintf("sereal:%q", s)), field("B", reflect.TypeOf(""), "")})
			v := reflect.New(st).Elem()
			v.Field(0).SetInt(7)
			v.Field(1).SetString("b")
			l := reflect.MakeSlice(reflect.SliceOf(st), 0, 2)
			r = append(r, v, reflect.Append(l, v, v))
		}
		// bytes in arrays, and lists of other small things
		a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(uint8(0)))).Elem()
		reflect.Copy(a, reflect.ValueOf([]byte(s)))
		if n < 20000 {
			r = append(r, a)
		}
	}
	for _, n := range counts {
		ints, strs, bools, floats, f32s, ifaces := make([]int, n), make([]string, n), make([]bool, n), make([]float64, n), make([]float32, n), make([]interface{}, n)
		structs, ptrs, same := make([]sizedKey, n), make([]*sizedKey, n), make([]*sizedKey, n)
		m, ms := map[string]int{}, map[string]sizedKey{}
		mp := map[string]*sizedKey{}
		x := &sizedKey{Thekey: 3}
		us, is, bs := make([]uint64, n), make([]int8, n), make([][]byte, n)
		for i := range ints {
			ints[i], strs[i], bools[i], floats[i], f32s[i] = i-n/2, fmt.Sprint(i), i%3 == 0, float64(i)/3, float32(i)/3
			ifaces[i] = []interface{}{i, "s", nil, 2.5}[i%4]
			structs[i], ptrs[i], same[i] = sizedKey{i, "o"}, &sizedKey{i, ""}, x
			m[fmt.Sprint(i)], ms[fmt.Sprint(i)], mp[fmt.Sprint(i)] = i, sizedKey{i, ""}, x
			us[i], is[i], bs[i] = math.MaxUint64>>uint(i%64), int8(i), []byte{byte(i)}
		}
		add(ints, strs, bools, floats, f32s, ifaces, structs, ptrs, same, m, ms, mp, us, is, bs)
		if n <= 300 {
			a := reflect.New(reflect.ArrayOf(n, reflect.TypeOf(int16(0)))).Elem()
			reflect.Copy(a, reflect.ValueOf(make([]int16, n)))
			r = append(r, a, manyFields(n, 0, reflect.TypeOf(0)), manyFields(n, 40, reflect.TypeOf("")))
			l := manyFields(n, 0, reflect.TypeOf(int8(0)))
			r = append(r, reflect.Append(reflect.MakeSlice(reflect.SliceOf(l.Type()), 0, 2), l, l))
		}
	}
	for _, n := range depths {
		var p *sizedPtr
		var l nestedList
		var m nestedMap
		for i := 0; i < n; i++ {
			p, l, m = &sizedPtr{i, p}, nestedList{l}, nestedMap{"k": m}
		}
		add(sizedPtr{1, p}, l, m)
	}
	// what is repeated, or referred to, after so many bytes
	for _, n := range append(ints([2]int{60, 135}), append(ints([2]int{16330, 16390}), ints([2]int{2097120, 2097155})...)...) {
		for _, mid := range []int{0, 100} {
			x := &sizedKey{7, "other"}
			add(sizedFar{filled(n), x, []byte(filled(mid)), x, *x, map[string]sizedKey{"Thekey": *x}})
			mp := &map[string]int{"B": 1}
			add(sizedMapPtr{mp, filled(n), mp})
			add(sizedIface{map[string]interface{}{"Thekey": 1}, []byte(filled(n)), []interface{}{map[string]int{"Thekey": 2, "Other": 3}}, []sizedKey{{1, "x"}, {2, "y"}}})
			if mid == 100 {
				continue
			}
			add([]*sizedKey{x, {1, filled(n)}, x, x}, map[string]map[string]string{"a": {"a": filled(n)}, "b": {"b": filled(n), "a": "b"}})
		}
	}
	return r
}

// typedSizesSpace is shared by P02 and P03.
func typedSizesSpace(check func(c *Ctx, t *T, k config, v reflect.Value)) Space {
	var sized []reflect.Value
	cs := []config{{version: 3}, {version: 1, perl: true}, {version: 2, nodedup: true}}
	return Space{Name: "typed sizes", What: "typed strings, bytes, keys, tags, lists, arrays, maps, structs and chains of sizes, and typed pointers and keys that are repeated after distances, around the powers of 128", Prog: func(c *Ctx, t *T) {
		if sized == nil {
			sized = typedSizes()
		}
		v := oneOf(c, sized)
		k := oneOf(c, cs)
		c.Ready()
		check(nil, t, k, v)
	}}
}
