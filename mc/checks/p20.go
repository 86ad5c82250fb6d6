package checks

import (
	"encoding"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"net/netip"
	"net/url"
	"reflect"
	"sync"
	"time"
	"unsafe"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P20", Spaces: p20, Assumptions: []string{
		"What an encoder supports is decided by the harness's own walk over the Go value. The text of the error is not judged.",
		"Values of type reflect.Value, hooks that panic (P12, P16), recursion limits (P15) and maps whose keys are equal after their conversion to strings are left to other checks or out.",
	}})
}

// supports tells whether an encoder has to be able to encode all that a value
// leads to. seen are the pointers on the way.
func supports(v reflect.Value, k config, seen map[unsafe.Pointer]bool) bool {
	if v.IsValid() && !v.CanInterface() {
		return false // a field that is not exported
	}
	for v.IsValid() && v.Kind() == reflect.Interface {
		v = v.Elem()
	}
	if !v.IsValid() {
		return true
	}
	switch x := v.Interface().(type) {
	case sereal.PerlObject:
		return supports(reflect.ValueOf(x.Reference), k, seen)
	case sereal.PerlWeakRef:
		return supports(reflect.ValueOf(x.Reference), k, seen)
	case sereal.PerlRegexp, sereal.PerlFreeze, sereal.PerlUndef:
		return true
	case encoding.BinaryMarshaler:
		if v.Kind() != reflect.Ptr && !k.nofreeze {
			_, err := x.MarshalBinary()
			return err == nil
		}
	}
	switch v.Kind() {
	case reflect.Bool, reflect.String, reflect.Float32, reflect.Float64,
		reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64,
		reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return true
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			if !supports(v.Index(i), k, seen) {
				return false
			}
		}
		return true
	case reflect.Map:
		for _, key := range v.MapKeys() {
			if !supports(v.MapIndex(key), k, seen) {
				return false
			}
			for key.IsValid() && key.Kind() == reflect.Interface {
				key = key.Elem()
			}
			if key.Kind() != reflect.String {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if tag := f.Tag.Get("sereal"); tag == "-" || tag == "" && f.PkgPath != "" {
				continue
			}
			if !supports(v.Field(i), k, seen) {
				return false
			}
		}
		return true
	case reflect.Ptr:
		if v.IsNil() || seen[v.UnsafePointer()] {
			return true
		}
		// pointers to different types can have the same address
		if v.Elem().Kind() == reflect.Ptr || v.Elem().Kind() == reflect.Struct || v.Elem().Kind() == reflect.Interface {
			seen[v.UnsafePointer()] = true
			defer delete(seen, v.UnsafePointer())
		}
		return supports(v.Elem(), k, seen)
	}
	return false
}

type (
	hFail    int
	hBigFail struct{ A, B int }
	iKeyMap  map[interface{}]interface{}

	privTag struct {
		A int
		b string `sereal:"b"`
	}
	privTagIface struct {
		b interface{} `sereal:"b"`
	}
	privTagHook struct {
		h hInt `sereal:"h"`
	}
	privSkip struct {
		a chan int
		B int
		C func()    `sereal:"-"`
		d chan bool `sereal:"-"`
	}
	embedsChan struct {
		Chans
		X int
	}
	embedsPriv struct {
		privSkip
		Y int
	}
	Chans      struct{ C chan int }
	Uintptrs   struct{ P uintptr }
	ComplexMap map[string]complex128
	ringChan   struct {
		Next *ringChan
		C    chan int
	}
	ring struct {
		Next *ring
		V    interface{}
	}
	emptyStruct struct{}
	namer       interface{ String() string }
	badKeyed    map[bool]string
	structKey   map[emptyStruct]int
	arrKey      map[[1]string]int
	namedFunc   func(int) error
	namedPtr    *int
)

func (hFail) MarshalBinary() ([]byte, error)    { return []byte("half"), errors.New("no") }
func (hBigFail) MarshalBinary() ([]byte, error) { return nil, errors.New("neither") }

func p20leaves() (r []interface{}) {
	add := func(vs ...interface{}) { r = append(r, vs...) }
	// what is supported
	add(nil, true, -17, int8(-1), uint16(300), uint64(math.MaxUint64), float32(1.5), math.NaN(), "", "text", []byte(nil), []byte("b"), json.Number("12"), json.Number("no number"), json.Number(""), json.Number("1e999"), json.Number("99999999999999999999"))
	add(myString("s"), myBytes("b"), [2]byte{1, 2}, [0]int{}, []string{"a", "a"}, []float32{1}, myKeyMap{"k": 1}, myMap{})
	add(map[string]int(nil), map[string]interface{}(nil), []interface{}(nil), (*int)(nil), new(string), new(interface{}), new(*int), namedPtr(new(int)))
	add(emptyStruct{}, &emptyStruct{}, privSkip{B: 3}, &privSkip{a: make(chan int), C: func() {}}, embedsPriv{Y: 1}, Named("n"))
	add(errors.New("e"), fmt.Errorf("w: %w", errors.New("e")), big.NewInt(7), &sync.Mutex{}, time.Unix(1e9, 5).UTC(), &url.URL{Host: "h"}, url.URL{Path: "/"}, netip.Addr{}, time.Second, reflect.Int, time.March)
	// what is supported because nothing is there
	add((chan int)(nil), []chan int(nil), []chan int{}, [0]func(){}, map[string]chan int{}, map[int]string{}, map[int]string(nil), map[interface{}]interface{}{}, (*chan int)(nil), (*func())(nil), (*complex64)(nil), (*Chans)(nil), (*privTag)(nil), map[[2]int]string{}, []hFail{}, (*hFail)(nil), new(*chan int), struct{ P *Chans }{}, struct{ I namer }{}, struct{ E error }{}, []error{nil})
	add(iKeyMap{"k": 1, myString("l"): nil}, map[namer]int{}, map[encoding.BinaryMarshaler]int{hString("x"): 1})
	// hooks
	add(hChan(nil), hFunc(nil), hFail(3), hBigFail{}, &hBigFail{1, 2}, new(hFail), hStruct{"s", 1}, privTagHook{}, struct{ H hFail }{1}, []hChan{nil}, map[string]hFunc{"f": nil})
	// Perl
	add(sereal.PerlUndef{}, &sereal.PerlUndef{}, (*sereal.PerlUndef)(nil), *sereal.PerlCanonicalUndef(), sereal.PerlCanonicalUndef(), sereal.PerlFreeze{}, &sereal.PerlFreeze{Class: "C", Data: []byte("d")}, (*sereal.PerlFreeze)(nil), sereal.PerlRegexp{}, &sereal.PerlRegexp{Pattern: []byte("p")}, (*sereal.PerlRegexp)(nil), (*sereal.PerlObject)(nil), (*sereal.PerlWeakRef)(nil), sereal.PerlAlias{Alias: 1}, &sereal.PerlAlias{}, sereal.PerlAlias{Alias: make(chan int)})
	// what is not
	var p uintptr = 5
	c, f := make(chan int, 1), func() {}
	add(c, (<-chan int)(c), f, namedFunc(nil), complex64(1), complex(1, 2), p, unsafe.Pointer(&p), unsafe.Pointer(nil), &c, &f, &p)
	add(Chans{}, &Chans{c}, embedsChan{}, Uintptrs{}, ComplexMap{"c": 1}, []func(){nil}, [1]complex64{}, map[string]func(){"": nil}, []uintptr{0})
	add(map[int]string{1: "a"}, map[uint8]interface{}{0: nil}, badKeyed{true: "x"}, map[float64]int{1: 1}, structKey{{}: 1}, arrKey{{"k"}: 1}, map[*int]int{nil: 1}, map[chan int]int{nil: 1})
	add(iKeyMap{"k": 1, 2: "l"}, iKeyMap{nil: 1}, iKeyMap{true: 1}, iKeyMap{hInt(1): 1}, map[namer]int{time.Second: 1}, map[namer]int{nil: 1})
	add(privTag{}, &privTag{b: "x"}, privTagIface{}, privTagIface{b: c}, []privTag{{}}, map[string]*privTag{"k": {}})
	// cycles
	a := &ringChan{}
	a.Next = &ringChan{a, nil}
	b := &ring{V: 1}
	b.Next = &ring{b, c}
	d := &ring{V: "x"}
	d.Next, d.V = d, &d.V
	e := &ring{}
	e.Next, e.V = e, map[int]int{1: 1}
	add(a, b, d, e)
	return r
}

// Named has a method but is no hook.
type Named string

func (Named) String() string { return "n" }

// p20wraps put a value into something else.
var p20wraps = []struct {
	name string
	f    func(v reflect.Value) interface{}
}{
	{"[]interface{}", func(v reflect.Value) interface{} { return []interface{}{v.Interface()} }},
	{"[]interface{} in the middle", func(v reflect.Value) interface{} {
		return []interface{}{"key", new(int), v.Interface(), map[string]interface{}{"key": &emptyStruct{}}, 7}
	}},
	{"map", func(v reflect.Value) interface{} { return map[string]interface{}{"key": v.Interface()} }},
	{"map among others", func(v reflect.Value) interface{} {
		return map[string]interface{}{"a": 1, "key": v.Interface(), "b": "key"}
	}},
	{"slice", func(v reflect.Value) interface{} {
		s := reflect.MakeSlice(reflect.SliceOf(v.Type()), 0, 2)
		return reflect.Append(s, reflect.Zero(v.Type()), v).Interface()
	}},
	{"array", func(v reflect.Value) interface{} {
		a := reflect.New(reflect.ArrayOf(1, v.Type())).Elem()
		a.Index(0).Set(v)
		return a.Interface()
	}},
	{"typed map", func(v reflect.Value) interface{} {
		m := reflect.MakeMap(reflect.MapOf(reflect.TypeOf(""), v.Type()))
		m.SetMapIndex(reflect.ValueOf("key"), v)
		return m.Interface()
	}},
	{"map of interfaces", func(v reflect.Value) interface{} { return iKeyMap{"key": v.Interface()} }},
	{"field", func(v reflect.Value) interface{} {
		s := reflect.New(reflect.StructOf([]reflect.StructField{field("A", reflect.TypeOf(""), ""), field("V", v.Type(), `sereal:"key"`), field("B", v.Type(), `sereal:"-"`), field("C", reflect.TypeOf(0), "")})).Elem()
		s.Field(1).Set(v)
		s.Field(2).Set(v)
		return s.Interface()
	}},
	{"field skipped", func(v reflect.Value) interface{} {
		s := reflect.New(reflect.StructOf([]reflect.StructField{field("A", v.Type(), `sereal:"-"`), field("B", reflect.TypeOf(""), "")})).Elem()
		s.Field(0).Set(v)
		return s.Interface()
	}},
	{"interface field", func(v reflect.Value) interface{} { return ring{V: v.Interface()} }},
	{"interface field behind a pointer", func(v reflect.Value) interface{} { r := &ring{V: v.Interface()}; r.Next = r; return r }},
	{"pointer", func(v reflect.Value) interface{} { p := reflect.New(v.Type()); p.Elem().Set(v); return p.Interface() }},
	{"pointer to interface", func(v reflect.Value) interface{} { i := v.Interface(); return &i }},
	{"pointer twice", func(v reflect.Value) interface{} {
		p := reflect.New(v.Type())
		p.Elem().Set(v)
		return []interface{}{p.Interface(), p.Interface()}
	}},
	{"PerlObject", func(v reflect.Value) interface{} {
		return sereal.PerlObject{Class: "key", Reference: &[]interface{}{v.Interface()}}
	}},
	{"*PerlObject", func(v reflect.Value) interface{} {
		return &sereal.PerlObject{Class: "Cls", Reference: map[string]interface{}{"key": v.Interface()}}
	}},
	{"PerlWeakRef", func(v reflect.Value) interface{} {
		p := &[]interface{}{v.Interface()}
		return []interface{}{sereal.PerlWeakRef{Reference: p}, p}
	}},
	{"*PerlWeakRef", func(v reflect.Value) interface{} { i := v.Interface(); return &sereal.PerlWeakRef{Reference: &i} }},
	{"PerlAlias", func(v reflect.Value) interface{} { return sereal.PerlAlias{Alias: v.Interface()} }},
}

// p20value encodes a value in all places where one can be.
func p20value(t *T, k config, what string, v interface{}) {
	ok := supports(reflect.ValueOf(v), k, map[unsafe.Pointer]bool{})
	t.Count(map[bool]string{true: "supported", false: "not supported"}[ok])
	enc := k.encoder()
	judge := func(where string, header, body interface{}, f func() ([]byte, error)) {
		var doc []byte
		err := safe(func() (err error) { doc, err = f(); return })
		switch {
		case isPanic(err), ok && err != nil:
			t.Failf("%v: %s as %s, which is %s: %v", k, what, where, map[bool]string{true: "supported", false: "not supported"}[ok], err)
		case !ok && err == nil:
			t.Failf("%v: %s as %s, which is not supported, is encoded as %s", k, what, where, hexdump(doc))
		case err != nil && len(doc) > 0:
			t.Failf("%v: %s as %s: an error and a document: %v, %s", k, what, where, err, hexdump(doc))
		case err == nil:
			p03doc(t, k, header, body, doc)
		}
	}
	judge("body", nil, v, func() ([]byte, error) { return enc.Marshal(v) })
	if k.version != 1 {
		judge("header", v, "body", func() ([]byte, error) { return enc.MarshalWithHeader(v, "body") })
		judge("body, with a header", "head", v, func() ([]byte, error) { return enc.MarshalWithHeader("head", v) })
		judge("header and body", v, v, func() ([]byte, error) { return enc.MarshalWithHeader(v, v) })
	}
}

func p20(thorough bool) (r []Space) {
	leaves := p20leaves()
	ks := []config{{version: 3}, {version: 3, perl: true}, {version: 1, perl: true, nodedup: true}, {version: 2, nofreeze: true}, {version: 3, comp: gen.Zlib}, {version: 1, comp: gen.Snappy}, {}}
	wrap := func(name, what string, ks []config, depth int) {
		r = append(r, Space{Name: name, What: what, Prog: func(c *Ctx, t *T) {
			i := c.Choose(len(leaves))
			v := leaves[i]
			what := fmt.Sprintf("%T", v)
			for d := 0; d < depth; d++ {
				w := oneOf(c, p20wraps)
				what += ", in " + w.name
				rv := reflect.ValueOf(v)
				if !rv.IsValid() {
					rv = reflect.ValueOf(&v).Elem()
				}
				v = w.f(rv)
			}
			k := oneOf(c, ks)
			c.Ready()
			t.Sample(func() string { return fmt.Sprintf("%v: %s", k, what) })
			p20value(t, k, what, v)
		}})
	}
	wrap("values", fmt.Sprintf("%d values, of all kinds that are supported and all that are not, as body and as header, %d encoders", len(leaves), len(ks)), ks, 0)
	wrap("within", fmt.Sprintf("the same inside each of %d things, %d encoders", len(p20wraps), len(ks)), ks, 1)
	wrap("within two", fmt.Sprintf("the same inside two of %d things, %d encoders", len(p20wraps), 4), ks[:4], 2)
	if thorough {
		wrap("within three", fmt.Sprintf("the same inside three of %d things, %d encoders", len(p20wraps), 2), ks[1:3], 3)
	}

	// pairs: what is good does not hide what is bad, nor the other way
	r = append(r, Space{Name: "pairs", What: fmt.Sprintf("two of %d values in a list, a map, a struct or two calls of one encoder, 2 encoders", len(leaves)), Prog: func(c *Ctx, t *T) {
		a, b := oneOf(c, leaves), oneOf(c, leaves)
		how := c.Choose(3)
		k := oneOf(c, ks[:2])
		c.Ready()
		var v interface{}
		switch how {
		case 0:
			v = []interface{}{a, b}
		case 1:
			v = map[string]interface{}{"a": a, "b": b}
		case 2:
			v = struct{ A, B interface{} }{a, b}
		}
		p20value(t, k, fmt.Sprintf("%T with %T and %T", v, a, b), v)
	}})

	// the package's own functions
	r = append(r, Space{Name: "Marshal", What: fmt.Sprintf("%d values, alone and inside each of %d things, with sereal.Marshal", len(leaves), len(p20wraps)), Prog: func(c *Ctx, t *T) {
		v := oneOf(c, leaves)
		if w := c.Choose(len(p20wraps) + 1); w > 0 {
			rv := reflect.ValueOf(v)
			if !rv.IsValid() {
				rv = reflect.ValueOf(&v).Elem()
			}
			v = p20wraps[w-1].f(rv)
		}
		c.Ready()
		var k config
		ok := supports(reflect.ValueOf(v), k, map[unsafe.Pointer]bool{})
		var doc []byte
		err := safe(func() (err error) { doc, err = sereal.Marshal(v); return })
		if isPanic(err) || (err == nil) != ok {
			t.Failf("Marshal(%T) is supported: %v, but returns %v", v, ok, err)
			return
		}
		if err == nil {
			p03doc(t, config{version: 3}, nil, v, doc)
		}
	}})
	return r
}
