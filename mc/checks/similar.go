package checks

import (
	"reflect"
	"strings"
	"sync"

	"github.com/Sereal/Sereal/Go/sereal"
)

// similar are pairs of strings that nearly are the same.
func similar(sizes []int) (r [][2]string) {
	for _, n := range sizes {
		s := filled(n)
		for _, i := range []int{0, n / 2, n - 1} {
			if i >= 0 && i < n {
				b := []byte(s)
				b[i]++
				r = append(r, [2]string{s, string(b)})
			}
		}
		r = append(r, [2]string{s, s + "x"}, [2]string{s, "x" + s}, [2]string{s + "\x00", s})
	}
	return append(r, [2]string{"key", "Key"}, [2]string{"key", "KEY"}, [2]string{"key", "key "}, [2]string{"\u00e9", "e\u0301"}, [2]string{"\u00e9", "\xe9"}, [2]string{"\xff", "\xfe"}, [2]string{"\ufffd", "\xff"}, [2]string{"1", "01"})
}

var similarSizes = ints([2]int{0, 33}, [2]int{62, 66}, [2]int{126, 130}, [2]int{254, 258}, [2]int{1022, 1026}, [2]int{4094, 4098}, [2]int{16382, 16386}, [2]int{65534, 65537})

var similarPairs = sync.OnceValue(func() [][2]string { return similar(similarSizes) })

// similarValues put such a pair where strings are compared.
var similarValues = []func(a, b string) interface{}{
	func(a, b string) interface{} { return map[string]interface{}{a: 1, b: 2} },
	func(a, b string) interface{} { return map[string]int{a: 1, b: 2} },
	func(a, b string) interface{} {
		return []interface{}{map[string]interface{}{a: 1}, map[string]interface{}{b: 2}, map[string]interface{}{a: 3, b: a}}
	},
	func(a, b string) interface{} {
		return []map[string]string{{a: a}, {b: b}, {a: b}, {b: a}}
	},
	func(a, b string) interface{} { return []string{a, b, a, b} },
	func(a, b string) interface{} { return [][]byte{[]byte(a), []byte(b), []byte(a), []byte(b)} },
}

// similarPerl are others, of Perl types.
var similarPerl = []func(a, b string) interface{}{
	func(a, b string) interface{} {
		return []interface{}{&sereal.PerlObject{Class: a, Reference: []interface{}{1}}, &sereal.PerlObject{Class: b, Reference: []interface{}{2}}, sereal.PerlObject{Class: a, Reference: map[string]interface{}{b: 3}}}
	},
	func(a, b string) interface{} {
		return []interface{}{sereal.PerlFreeze{Class: a, Data: []byte(b)}, sereal.PerlFreeze{Class: b, Data: []byte(a)}, sereal.PerlRegexp{Pattern: []byte(a)}, sereal.PerlRegexp{Pattern: []byte(b)}}
	},
	func(a, b string) interface{} { return []interface{}{a, b, &a, &b, []byte(a), []byte(b)} },
}

// similarStruct has fields that go by such names.
func similarStruct(a, b string) interface{} {
	ok := func(s string) bool {
		return s != "" && s != "-" && strings.Trim(s, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.") == ""
	}
	if !ok(a) || !ok(b) {
		return struct{}{}
	}
	v := reflect.New(reflect.StructOf([]reflect.StructField{field("F1", reflect.TypeOf(0), `sereal:"`+a+`"`), field("F2", reflect.TypeOf(""), `sereal:"`+b+`"`), field("F3", reflect.TypeOf([]interface{}{}), `sereal:"`+a+b+`2"`)})).Elem()
	v.Field(0).SetInt(7)
	v.Field(1).SetString(a)
	return v.Interface()
}
