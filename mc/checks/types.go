package checks

import (
	"fmt"
	"reflect"
	"time"

	"github.com/Sereal/Sereal/Go/sereal"
)

// node is what typed documents are decoded into.
type node struct {
	A    int
	B    string
	C    []node
	D    map[string]*node
	E    *node
	F    interface{}
	G    []byte
	H    [2]string
	I    float64
	J    bool `sereal:"jay"`
	Skip int  `sereal:"-"`
	priv int
}

type namedString string
type namedMap map[namedString]int
type badTag struct {
	x int `sereal:"a"`
	B int
}
type embedded struct {
	node
	Z int
}

// destinations are types of variables to decode into: some fit many documents,
// some none.
var destinations = func() (r []reflect.Type) {
	for _, v := range []interface{}{
		false, int(0), int8(0), uint64(0), float32(0), float64(0), "", namedString(""), []byte{}, [4]byte{}, []int{}, []string{}, [][]byte{}, [2]int{},
		[]interface{}{}, [2]interface{}{}, map[string]int{}, map[string]interface{}{}, namedMap{}, map[string][]int{}, map[string]map[string]string{},
		node{}, &node{}, []node{}, []*node{}, map[string]node{}, map[string]*node{}, embedded{},
		new(int), new(string), new(*node), map[int]string{}, make(chan int), struct{}{}, badTag{}, time.Time{}, &time.Time{},
		sereal.PerlObject{}, &sereal.PerlRegexp{}, &sereal.PerlUndef{}, &sereal.PerlFreeze{}, sereal.PerlWeakRef{}, []sereal.PerlObject{}, map[string]sereal.PerlWeakRef{},
	} {
		r = append(r, reflect.TypeOf(v))
	}
	return append(r, reflect.TypeOf((*fmt.Stringer)(nil)).Elem(), reflect.TypeOf((*error)(nil)).Elem(), reflect.TypeOf((*[]interface{})(nil)).Elem())
}()
