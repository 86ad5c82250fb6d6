package checks

import (
	"bytes"
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/order"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P02", Spaces: p02, Assumptions: []string{
		"Pointers to anything but structs and maps are not covered: the decoder does not support them as destinations.",
		"Values in interface-typed fields come back as they do from an empty interface (P01).",
		"Signalling NaNs of named float types may come back as quiet ones.",
	}})
}

// ---- types

var scalarTypes = func() (r []reflect.Type) {
	for _, v := range []interface{}{false, int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), float32(0), float64(0), "", []byte{}, myInt(0), myUint64(0), myString(""), myBool(false), myFloat(0)} {
		r = append(r, reflect.TypeOf(v))
	}
	return append(r, ifaceType)
}()

var ifaceType = reflect.TypeOf((*interface{})(nil)).Elem()

var fewTypes = []reflect.Type{reflect.TypeOf(int8(0)), reflect.TypeOf(""), reflect.TypeOf([]byte{}), ifaceType}

func field(name string, t reflect.Type, tag string) reflect.StructField {
	return reflect.StructField{Name: name, Type: t, Tag: reflect.StructTag(tag)}
}

var stringType = reflect.TypeOf("")

// compose makes the types one level above t.
func compose(t reflect.Type) []reflect.Type {
	st := reflect.StructOf([]reflect.StructField{field("A", t, ""), field("B", t, `sereal:"bee"`)})
	m := reflect.MapOf(stringType, t)
	return []reflect.Type{
		reflect.SliceOf(t), reflect.ArrayOf(2, t), m, reflect.MapOf(reflect.TypeOf(myString("")), t), st, reflect.PtrTo(st), reflect.PtrTo(m),
	}
}

func composeAll(ts []reflect.Type) (r []reflect.Type) {
	for _, t := range ts {
		r = append(r, compose(t)...)
	}
	return r
}

type (
	plainS  struct{ A, B int }
	taggedS struct {
		A int    `sereal:"x"`
		B string `sereal:"y" json:"z"`
		C []byte `json:"c"`
	}
	skipS struct {
		A    int
		Skip string `sereal:"-"`
		priv int
		B    string
	}
	crossS struct { // tags that are other fields' names
		A int    `sereal:"B"`
		B string `sereal:"A"`
	}
	listS struct {
		V    int
		Next *listS
	}
	treeS struct {
		Name string
		Kids []treeS
		ByID map[string]*treeS
		Any  interface{}
	}
	emptyS  struct{}
	nestedS struct {
		P plainS
		Q *plainS
		R []plainS
		S map[string]plainS
		T [2]plainS
	}
	wideS struct {
		B   bool
		I8  int8
		I16 int16
		I32 int32
		I64 int64
		U8  uint8
		U64 uint64
		F32 float32
	}
	widerS struct {
		A, B, C, D, E, F, G, H, I, J string
		K                            *map[string]int
	}
	embedS struct {
		plainS
		Z int
	}
	EmbedP  struct{ A int }
	embedES struct {
		EmbedP
		Z string
	}
	lowerS struct {
		A int `sereal:"a"`
		B int `sereal:"b c"`
		C int `sereal:""`
	}
	unicodeS struct {
		Ä int
		X int `sereal:"schlüssel"`
	}
)

var structTypes = func() (r []reflect.Type) {
	for _, v := range []interface{}{plainS{}, taggedS{}, skipS{}, crossS{}, listS{}, treeS{}, emptyS{}, nestedS{}, wideS{}, widerS{}, embedS{}, embedES{}, lowerS{}, unicodeS{}} {
		r = append(r, reflect.TypeOf(v))
	}
	return append(r, twinStructs()...)
}()

// ---- values

// typedGen makes values of a type, with a bound on the number of parts that are
// not zero.
type typedGen struct {
	c    *Ctx
	left int
	full bool // all boundary values of scalars
}

// one chooses among zero, which is free, and n other values, which are not.
func (g *typedGen) one(n int) int {
	if g.left <= 0 {
		return 0
	}
	if !g.full && n > 1 {
		n = 1
	}
	i := g.c.Choose(n + 1)
	if i > 0 {
		g.left--
	}
	return i
}

func (g *typedGen) value(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(g.one(1) == 1)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b := t.Bits()
		xs := []int64{0, -100, -1, 15, 16, -16, -17, 1<<(b-1) - 1, -1 << (b - 1)}
		v.SetInt(xs[g.one(len(xs)-1)])
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		xs := []uint64{0, 1<<uint(t.Bits()) - 1, 1, 15, 16, 127, 128, 1 << uint(t.Bits()-1)}
		v.SetUint(xs[g.one(len(xs)-1)])
	case reflect.Float32:
		xs := []float64{0, 1.5, math.Copysign(0, -1), math.MaxFloat32, math.SmallestNonzeroFloat32, math.Inf(-1), math.NaN()}
		v.SetFloat(xs[g.one(len(xs)-1)])
	case reflect.Float64:
		xs := []float64{0, math.Pi, math.Copysign(0, -1), math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.NaN()}
		v.SetFloat(xs[g.one(len(xs)-1)])
	case reflect.String:
		xs := []string{"", "A", "\xff\x00", "a longer string than fits into 31 bytes", "bee"}
		v.SetString(xs[g.one(len(xs)-1)])
	case reflect.Interface:
		xs := []interface{}{nil, "A", 7, []byte("A"), map[string]interface{}{"A": "A"}, []interface{}{1, nil}, uint(1 << 63), -1.5, true}
		if x := xs[g.one(len(xs)-1)]; x != nil {
			v.Set(reflect.ValueOf(x))
		}
	case reflect.Slice:
		if t.Elem().Kind() == reflect.Uint8 && t.Elem().PkgPath() == "" && t.Name() == "" {
			xs := []string{"", "A", "\xff\x00", "a longer string than fits into 31 bytes"}
			v.SetBytes([]byte(xs[g.one(len(xs)-1)]))
			return v
		}
		if n := g.some(4); n > 0 {
			v.Set(reflect.MakeSlice(t, n-1, n-1))
			for i := 0; i < n-1; i++ {
				v.Index(i).Set(g.value(t.Elem()))
			}
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(g.value(t.Elem()))
		}
	case reflect.Map:
		if n := g.some(4); n > 0 {
			v.Set(reflect.MakeMap(t))
			for i := 0; i < n-1; i++ {
				v.SetMapIndex(reflect.ValueOf([]string{"A", "bee"}[i]).Convert(t.Key()), g.value(t.Elem()))
			}
		}
	case reflect.Ptr:
		if g.left > 0 && g.c.Bool() {
			g.left--
			v.Set(reflect.New(t.Elem()))
			v.Elem().Set(g.value(t.Elem()))
		}
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if f := v.Field(i); f.CanSet() {
				f.Set(g.value(f.Type()))
			}
		}
	}
	return v
}

// some returns 0 or, if something is left, up to n-1.
func (g *typedGen) some(n int) int {
	if g.left <= 0 {
		return 0
	}
	i := g.c.Choose(n)
	if i > 0 {
		g.left--
	}
	return i
}

// ---- comparison

// fieldName returns the name under which a field travels, if it does.
func fieldName(f reflect.StructField) (string, bool) {
	name := f.Tag.Get("sereal")
	if name == "-" || name == "" && f.PkgPath != "" {
		return "", false
	}
	if name == "" {
		name = f.Name
	}
	return name, true
}

// sameTyped tells whether got is what v has to come back as in a variable of
// its type.
func sameTyped(v, got reflect.Value, path string) error {
	bad := func() error { return fmt.Errorf("at %s: %s comes back as %s", path, show(v), show(got)) }
	if v.Type() != got.Type() {
		return bad()
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() != got.Bool() {
			return bad()
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.Int() != got.Int() {
			return bad()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.Uint() != got.Uint() {
			return bad()
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(v.Float()) != math.Float64bits(got.Float()) {
			return bad()
		}
	case reflect.String:
		if v.String() != got.String() {
			return bad()
		}
	case reflect.Interface:
		if err := sameUntypedAt(v, got.Interface(), path); err != nil {
			return err
		}
	case reflect.Slice, reflect.Array:
		if v.Len() != got.Len() {
			return bad()
		}
		if v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 {
			if !bytes.Equal(v.Bytes(), got.Bytes()) {
				return bad()
			}
			return nil
		}
		for i := 0; i < v.Len(); i++ {
			if err := sameTyped(v.Index(i), got.Index(i), ref.PathN(path, "[%d]", i)); err != nil {
				return err
			}
		}
	case reflect.Map:
		if v.Len() != got.Len() {
			return bad()
		}
		for _, k := range v.MapKeys() {
			x := got.MapIndex(k)
			if !x.IsValid() {
				return bad()
			}
			if err := sameTyped(v.MapIndex(k), x, ref.PathN(path, "{%v}", k)); err != nil {
				return err
			}
		}
	case reflect.Ptr:
		if v.IsNil() || got.IsNil() {
			if v.IsNil() != got.IsNil() {
				return bad()
			}
			return nil
		}
		return sameTyped(v.Elem(), got.Elem(), ref.PathTo(path))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Type().Field(i)
			if _, ok := fieldName(f); !ok {
				if !got.Field(i).IsZero() {
					return fmt.Errorf("at %s: field %s has been set", path, f.Name)
				}
				continue
			}
			if err := sameTyped(v.Field(i), got.Field(i), ref.Path(path, "."+f.Name)); err != nil {
				return err
			}
		}
	default:
		return bad()
	}
	return nil
}

func show(v reflect.Value) string {
	if v.IsValid() && v.CanInterface() {
		return ref.Show(v.Interface())
	}
	return fmt.Sprint(v)
}

func p02value(c *Ctx, t *T, k config, v reflect.Value) {
	var x interface{} = v.Interface()
	doc, err := k.marshal(c, nil, x)
	if err != nil {
		t.Failf("%v: %s of type %v: %v", k, ref.Show(x), v.Type(), err)
		return
	}
	t.Sample(func() string { return k.String() + " " + ref.Show(x) + " is " + hexdump(doc) })
	got := reflect.New(v.Type())
	if err = safe(func() error { return sereal.Unmarshal(doc, got.Interface()) }); err == nil {
		err = sameTyped(v, got.Elem(), "top")
	}
	if err != nil {
		t.Failf("%v: %s of type %v, encoded as %s: %v", k, ref.Show(x), v.Type(), hexdump(doc), err)
	}
}

// nameTypes are structs whose fields go by all combinations of names and tags,
// as long as no two go by the same.
func nameTypes(t reflect.Type, fields int) (r []reflect.Type) {
	tags := []string{"", "-", "aa", "Aa", "bb", "Bb", "bb cc", "Bb Cc", "\u00e4"}
	names := []string{"Aa", "Bb", "X\u00e4"}
	var rec func(fs []reflect.StructField, used map[string]bool)
	rec = func(fs []reflect.StructField, used map[string]bool) {
		if len(fs) > 0 {
			r = append(r, reflect.StructOf(fs))
		}
		if len(fs) == fields {
			return
		}
		for _, tag := range tags {
			name := names[len(fs)]
			key, tagText := tag, ""
			if tag == "" {
				key = name
			} else {
				tagText = fmt.Sprintf("sereal:%q", tag)
			}
			if tag != "-" && used[key] {
				continue
			}
			now := map[string]bool{key: true}
			for k := range used {
				now[k] = true
			}
			rec(append(fs[:len(fs):len(fs)], field(name, t, tagText)), now)
		}
	}
	rec(nil, nil)
	return r
}

// typedSpaces are the spaces of typed values that several properties share.
func typedSpaces(thorough bool, check func(c *Ctx, t *T, k config, v reflect.Value)) []Space {
	more := 0
	if thorough {
		more = 1
	}
	level1 := composeAll(scalarTypes)
	level2 := composeAll(composeAll(fewTypes))
	var level3 []reflect.Type
	if thorough {
		level3 = composeAll(composeAll(composeAll(fewTypes[:2])))
	} else {
		level3 = composeAll(composeAll(composeAll(fewTypes[:1])))
	}
	space := func(name, what string, types []reflect.Type, parts int, full bool, configs []config, orders bool) Space {
		return Space{Name: name, What: fmt.Sprintf("%s, %d types with all values of up to %d parts that are not zero, %d encoders", what, len(types), parts, len(configs)), Prog: func(c *Ctx, t *T) {
			typ := oneOf(c, types)
			v := (&typedGen{c: c, left: parts, full: full}).value(typ)
			k := oneOf(c, configs)
			if orders {
				order.Repeat(c)
			}
			c.Ready()
			if orders {
				check(c, t, k, v)
			} else {
				check(nil, t, k, v)
			}
		}}
	}
	// structs of two fields of different types
	var pairs []reflect.Type
	some := append(append([]reflect.Type{}, fewTypes...), composeAll(fewTypes[:2])...)
	for _, a := range some {
		for _, b := range some {
			pairs = append(pairs, reflect.StructOf([]reflect.StructField{field("A", a, ""), field("B", b, "")}))
		}
	}
	cs := []config{{version: 3}, {version: 1, perl: true}, {version: 2, nodedup: true}}
	return []Space{
		space("scalars", "scalar types and interface{}, boundary values", scalarTypes, 1, true, coreConfigs, false),
		space("containers", "slices, arrays, maps, structs and pointers of scalars", level1, 4, true, cs, false),
		space("containers, orders", "slices, arrays, maps, structs and pointers of few scalars, in all orders of keys and fields", composeAll(fewTypes), 5, false, coreConfigs, true),
		space("containers of containers", "two levels of containers", level2, 5+more, false, cs, false),
		space("containers of containers, orders", "two levels of containers, in all orders of keys and fields", level2, 4+more, false, cs[:2], true),
		space("three levels", "three levels of containers", level3, 6+more, false, cs[:2], false),
		typedSizesSpace(check),
		space("pairs", "structs of two fields of different types", pairs, 7, false, cs[:2], false),
		space("structs", "structs with tags, embedded, unexported and skipped fields, recursive ones", structTypes, 5+more, false, coreConfigs, false),
		space("names", "structs of up to 3 fields with all combinations of names and tags", nameTypes(reflect.TypeOf(int8(0)), 3), 2+more, false, cs, false),
		space("structs, orders", "structs with tags, embedded, unexported and skipped fields, recursive ones, in all orders of keys and fields", structTypes, 3+more, false, cs[:2], true),
	}
}

// ---- reading documents into structs of another type

type (
	dstA struct {
		A   string
		B   string
		C   string `sereal:"-"`
		d   string
		Xyz []string
	}
	dstB struct {
		F string `sereal:"A"`
		G string `sereal:"a"`
		A string `sereal:"q"`
		B string
	}
	dstC struct {
		In dstA
		B  *dstB
	}
	dstE struct{}
)

// readInto is what should become of dst: the keys of the document in order.
func readInto(dst reflect.Value, doc *ref.Node) {
	byName := map[string]int{}
	for i := 0; i < dst.NumField(); i++ {
		if n, ok := fieldName(dst.Type().Field(i)); ok {
			byName[n] = i
		}
	}
	for i, k := range doc.Keys {
		f, ok := byName[k.S]
		if !ok && k.S != "" {
			f, ok = byName[strings.ToUpper(k.S[:1])+k.S[1:]]
		}
		if !ok {
			continue
		}
		n := doc.Kids[i]
		for n.Kind == ref.Ref || n.Kind == ref.Object {
			n = n.Kids[0]
		}
		fv := dst.Field(f)
		switch {
		case n.Kind == ref.Hash:
			if fv.Kind() == reflect.Ptr {
				if fv.IsNil() {
					fv.Set(reflect.New(fv.Type().Elem()))
				}
				fv = fv.Elem()
			}
			readInto(fv, n)
		case fv.Kind() == reflect.String:
			fv.SetString(n.S)
		}
	}
}

func p02fields(c *Ctx, t *T) {
	keys := []string{"A", "a", "B", "b", "C", "c", "d", "q", "other", "xyz", "", "F"}
	// a document with some of the keys
	m := map[string]interface{}{}
	n := c.Choose(4)
	first := 0
	for i := 0; i < n; i++ {
		if first == len(keys) {
			break
		}
		j := first + c.Choose(len(keys)-first)
		first = j + 1
		var v interface{} = "v" + keys[j]
		if keys[j] == "other" {
			v = oneOf(c, []interface{}{"x", []interface{}{1, map[string]interface{}{"A": "no"}}, map[string]interface{}{"A": "no", "B": "no"}, nil})
		}
		if keys[j] == "xyz" {
			v = []interface{}{"p", "q"}
		}
		m[keys[j]] = v
	}
	dst := oneOf(c, []interface{}{dstA{A: "1", B: "2", C: "3", d: "4"}, dstA{}, dstB{F: "5", A: "6"}, dstE{}, dstC{In: dstA{A: "1"}}, dstC{B: &dstB{F: "7"}}})
	var v interface{} = m
	if _, ok := dst.(dstC); ok {
		v = map[string]interface{}{oneOf(c, []string{"In", "in", "B", "b"}): m, "x": 1}
	}
	k := oneOf(c, twoConfigs)
	order.Repeat(c)
	c.Ready()
	doc, err := k.marshal(c, nil, v)
	if err != nil {
		t.Failf("%v: %v", v, err)
		return
	}
	d, err := ref.Parse(doc)
	if err != nil {
		t.Failf("%v: %v", v, err)
		return
	}
	mk := func() reflect.Value {
		p := reflect.New(reflect.TypeOf(dst))
		p.Elem().Set(reflect.ValueOf(dst))
		if x, ok := p.Interface().(*dstC); ok && x.B != nil {
			b := *x.B
			x.B = &b
		}
		return p
	}
	want, got := mk(), mk()
	n2 := d.Body
	for n2.Kind == ref.Ref {
		n2 = n2.Kids[0]
	}
	readInto(want.Elem(), n2)
	if x, ok := want.Interface().(*dstA); ok {
		if _, has := m["xyz"]; has {
			x.Xyz = []string{"p", "q"}
		}
	}
	if x, ok := want.Interface().(*dstC); ok {
		for _, key := range []string{"In", "in"} {
			if in, ok := v.(map[string]interface{})[key].(map[string]interface{}); ok {
				if _, has := in["xyz"]; has {
					x.In.Xyz = []string{"p", "q"}
				}
			}
		}
	}
	t.Sample(func() string { return ref.Show(v) + " into " + ref.Show(dst) + " gives " + ref.Show(want.Interface()) })
	if err := safe(func() error { return sereal.Unmarshal(doc, got.Interface()) }); err != nil {
		t.Failf("%s, as %s, into %s: %v", ref.Show(v), hexdump(doc), ref.Show(dst), err)
		return
	}
	if !reflect.DeepEqual(want.Interface(), got.Interface()) {
		t.Failf("%s, as %s, into %s: gives %s instead of %s", ref.Show(v), hexdump(doc), ref.Show(dst), ref.Show(got.Interface()), ref.Show(want.Interface()))
	}
}

func p02(thorough bool) []Space {
	return append(typedSpaces(thorough, p02value), Space{Name: "similar", What: "maps and structs with keys, tags and strings of many lengths that differ in little, with 2 encoders", Prog: func(c *Ctx, t *T) {
		pair := oneOf(c, similarPairs())
		v := oneOf(c, append(similarValues[:len(similarValues):len(similarValues)], similarStruct))(pair[0], pair[1])
		k := oneOf(c, twoConfigs)
		c.Ready()
		p02value(nil, t, k, reflect.ValueOf(v))
	}}, Space{Name: "fields", What: "documents with up to 3 of 12 keys, in all orders, read into structs of other types whose fields match by tag, name or title-cased key, and which have values already", Prog: p02fields})
}
