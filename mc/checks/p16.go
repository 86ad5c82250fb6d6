package checks

import (
	"encoding"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"

	"verif/mc/gen"
	"verif/mc/order"
	"verif/mc/ref"
	"verif/mc/run"
)

func init() {
	register(&run.Check{ID: "P16", Spaces: p16, Assumptions: []string{
		"MarshalBinary counts where the value itself has it; one with a pointer receiver is not looked for by the encoder.",
		"The hooks of the harness lose nothing, so that values can be compared after a round trip.",
	}})
}

// types of all kinds with hooks that lose nothing
type (
	hStruct struct {
		S string
		N int
	}
	hString string
	hBytes  []byte
	hInt    int
	hFloat  float64
	hBool   bool
	hSlice  []int
	hMap    map[string]int
	hArr    [2]int
)

func (h hStruct) MarshalBinary() ([]byte, error) { return []byte(fmt.Sprint(h.N, "|", h.S)), nil }
func (h hString) MarshalBinary() ([]byte, error) { return []byte(h), nil }
func (h hBytes) MarshalBinary() ([]byte, error)  { return h, nil }
func (h hInt) MarshalBinary() ([]byte, error)    { return []byte(strconv.Itoa(int(h))), nil }
func (h hFloat) MarshalBinary() ([]byte, error) {
	return []byte(strconv.FormatFloat(float64(h), 'g', -1, 64)), nil
}
func (h hBool) MarshalBinary() ([]byte, error)  { return []byte(strconv.FormatBool(bool(h))), nil }
func (h hSlice) MarshalBinary() ([]byte, error) { return []byte(joinInts(h)), nil }
func (h hArr) MarshalBinary() ([]byte, error)   { return []byte(joinInts(h[:])), nil }
func (h hMap) MarshalBinary() ([]byte, error) {
	var ks []string
	for k, v := range h {
		ks = append(ks, fmt.Sprint(v, "=", k))
	}
	sort.Strings(ks)
	return []byte(strings.Join(ks, "\x01")), nil
}

func joinInts(xs []int) string {
	var s []string
	for _, x := range xs {
		s = append(s, strconv.Itoa(x))
	}
	return strings.Join(s, ",")
}

func splitInts(b []byte) (r []int, err error) {
	for _, s := range strings.Split(string(b), ",") {
		x, e := strconv.Atoi(s)
		if e != nil && s != "" {
			return nil, e
		}
		if s != "" {
			r = append(r, x)
		}
	}
	return
}

func (h *hStruct) UnmarshalBinary(b []byte) (err error) {
	n, s, ok := strings.Cut(string(b), "|")
	if !ok {
		return errors.New("no hStruct")
	}
	h.S = s
	h.N, err = strconv.Atoi(n)
	return
}
func (h *hString) UnmarshalBinary(b []byte) error { *h = hString(b); return nil }
func (h *hBytes) UnmarshalBinary(b []byte) error  { *h = append(hBytes{}, b...); return nil }
func (h *hInt) UnmarshalBinary(b []byte) error {
	x, err := strconv.Atoi(string(b))
	*h = hInt(x)
	return err
}
func (h *hFloat) UnmarshalBinary(b []byte) error {
	x, err := strconv.ParseFloat(string(b), 64)
	*h = hFloat(x)
	return err
}
func (h *hBool) UnmarshalBinary(b []byte) error {
	x, err := strconv.ParseBool(string(b))
	*h = hBool(x)
	return err
}
func (h *hSlice) UnmarshalBinary(b []byte) error {
	x, err := splitInts(b)
	*h = x
	return err
}
func (h *hArr) UnmarshalBinary(b []byte) error {
	x, err := splitInts(b)
	copy(h[:], x)
	return err
}
func (h *hMap) UnmarshalBinary(b []byte) error {
	*h = hMap{}
	if len(b) == 0 {
		return nil
	}
	for _, s := range strings.Split(string(b), "\x01") {
		n, k, _ := strings.Cut(s, "=")
		x, err := strconv.Atoi(n)
		if err != nil {
			return err
		}
		(*h)[k] = x
	}
	return nil
}

var hookTypes = func() (r []reflect.Type) {
	for _, v := range []interface{}{hStruct{}, hString(""), hBytes{}, hInt(0), hFloat(0), hBool(false), hSlice{}, hMap{}, hArr{}} {
		r = append(r, reflect.TypeOf(v))
	}
	return
}()

// others that only encode
type (
	hChan  chan int
	hFunc  func()
	hEmbed struct {
		hStruct
		X int
	}
)

func (h hChan) MarshalBinary() ([]byte, error) { return []byte("chan"), nil }
func (h hFunc) MarshalBinary() ([]byte, error) { return []byte("func"), nil }

// thawed records what UnmarshalBinary is given.
type thawed struct {
	Got   string
	Calls int
}

func (h *thawed) UnmarshalBinary(b []byte) error {
	h.Got, h.Calls = string(b), h.Calls+1
	return nil
}

// thawedMap does so though it is a map.
type thawedMap map[string]string

func (h thawedMap) UnmarshalBinary(b []byte) error { h["got"] += string(b) + "."; return nil }

// valueThaw has the method itself.
type valueThaw struct{ p *string }

func (valueThaw) UnmarshalBinary([]byte) error { return nil }

// className is the class under which the encoder freezes values of a type.
func className(t reflect.Type) string { return t.PkgPath() + "." + t.Name() }

// p16value encodes a value with hooks, and decodes it in all ways.
func p16value(c *Ctx, t *T, k config, v interface{}, typed bool) {
	doc, err := k.marshal(c, nil, v)
	if err != nil {
		t.Failf("%v: %#v: %v", k, v, err)
		return
	}
	t.Sample(func() string { return fmt.Sprintf("%v: %#v is %s", k, v, hexdump(doc)) })
	p03doc(t, k, nil, v, doc)
	if t.Failed() {
		return
	}
	bad := func(err error) { t.Failf("%v: %#v, encoded as %s: %v", k, v, hexdump(doc), err) }
	if typed && !k.nofreeze {
		got := reflect.New(reflect.TypeOf(v))
		if err = safe(func() error { return sereal.Unmarshal(doc, got.Interface()) }); err == nil {
			err = sameTyped(reflect.ValueOf(v), got.Elem(), "top")
		}
		if err != nil {
			bad(err)
			return
		}
	}
	d, err := ref.Parse(doc)
	if err != nil {
		bad(err)
		return
	}
	// as any value, with all, some or none of the types registered
	for reg := 0; reg < 3; reg++ {
		dec := sereal.NewDecoder()
		dec.PerlCompat = k.perl && reg == 2
		for i, h := range hookTypes {
			if reg == 1 || reg == 2 && i&1 == 0 {
				dec.RegisterName(className(h), reflect.New(h).Interface())
			}
		}
		got, err := decodeAny(dec, doc)
		m := ref.Mode{PerlCompat: dec.PerlCompat}
		m.Registered = func(class string, data []byte) (func(v interface{}) error, bool) {
			for i, h := range hookTypes {
				if (reg == 1 || reg == 2 && i&1 == 0) && class == className(h) {
					want := reflect.New(h)
					if err := want.Interface().(encoding.BinaryUnmarshaler).UnmarshalBinary(data); err != nil {
						return func(interface{}) error { return err }, true
					}
					return func(v interface{}) error { return deepSame(want.Interface(), v) }, true
				}
			}
			return nil, false
		}
		if err == nil && settled(d.Feats) {
			err = ref.SameDecoded(d.Body, got, m)
		}
		if err != nil {
			bad(fmt.Errorf("registered: %d of 3: %v", reg, err))
			return
		}
	}
	t.Count("encoded")
}

func p16(thorough bool) []Space {
	more := 0
	if thorough {
		more = 1
	}
	var r []Space
	ks := []config{{version: 3}, {version: 1, perl: true}, {version: 2, nodedup: true}, {version: 3, nofreeze: true, perl: true}}
	typed := func(name string, types []reflect.Type, parts int, orders bool) {
		r = append(r, Space{Name: "typed: " + name, What: fmt.Sprintf("%s, %d types with all values of up to %d parts that are not zero, %d encoders; decoded into the same type, and as any value with none, all and half of the types registered", name, len(types), parts, len(ks)), Prog: func(c *Ctx, t *T) {
			v := (&typedGen{c: c, left: parts}).value(oneOf(c, types))
			k := oneOf(c, ks)
			if orders {
				order.Repeat(c)
			} else {
				c.Ready()
				p16value(nil, t, k, v.Interface(), true)
				return
			}
			c.Ready()
			p16value(c, t, k, v.Interface(), true)
		}})
	}
	two := []reflect.Type{hookTypes[0], hookTypes[1], hookTypes[6]}
	typed("hooked types", hookTypes, 3, false)
	typed("containers of hooked types", composeAll(hookTypes), 4+more, true)
	typed("two levels", composeAll(composeAll(two)), 4+more, false)
	var pairs []reflect.Type
	some := append(append([]reflect.Type{}, hookTypes...), composeAll(two)...)
	for _, a := range some {
		for _, b := range some {
			pairs = append(pairs, reflect.StructOf([]reflect.StructField{field("A", a, ""), field("B", b, "")}))
		}
	}
	typed("pairs", pairs, 4+more, false)

	// untyped graphs with hooks
	leaves := []interface{}{hStruct{"a", 1}, hString("A"), hMap{"k": 1}, hChan(nil), hEmbed{hStruct{"x", 2}, 3}, &hStruct{"p", 4}, "A"}
	graphs := func(name string, g heapGrammar) {
		r = append(r, Space{Name: "graphs: " + name, What: fmt.Sprintf("all graphs of at most %d values with hooks and pointers (%s), %d encoders", g.tokens, name, len(ks)-1), Prog: func(c *Ctx, t *T) {
			v := g.value(c)
			k := oneOf(c, ks[:3])
			c.Ready()
			p16value(nil, t, k, v, false)
		}})
	}
	graphs("boxes", heapGrammar{tokens: 5 + more, maxKids: 3, leaves: leaves, slices: true, boxes: true, maps: true})
	graphs("all", heapGrammar{tokens: 5 + more, maxKids: 2, leaves: leaves[:4], slices: true, pslices: true, pmaps: true, boxes: true, structs: true, perl: true})

	// lengths
	sizes := append(ints([2]int{0, 40}, [2]int{126, 130}), 16383, 16384, 70000)
	if thorough {
		sizes = append(sizes, 2097151, 2097152)
	}
	r = append(r, Space{Name: "lengths", What: "payloads of many lengths, once and repeated, with all configurations of encoders", Prog: func(c *Ctx, t *T) {
		n := oneOf(c, sizes)
		k := oneOf(c, allConfigs)
		if n > 1000 && !thorough && (k.expected != 0 || k.threshold > 1) {
			c.Ready()
			return
		}
		times := 1 + c.Choose(2)
		c.Ready()
		h := hBytes(filled(n))
		v := []hBytes{h, hBytes("x")}
		if times == 2 {
			v = []hBytes{h, h, nil, h}
		}
		p16value(nil, t, k, v, true)
	}})

	// documents of all forms
	str := func(form int, s string) []byte {
		switch form {
		case 0:
			return gen.Short(s)
		case 1:
			return gen.Binary(s)
		}
		return gen.UTF8(s)
	}
	classes := []string{"Cls", "", "main.T", "Ünï", strings.Repeat("long", 20)}
	payloads := []string{"", "x", "\x00\xff", strings.Repeat("pay", 11), strings.Repeat("load", 100)}
	dests := []interface{}{thawed{}, &thawed{}, []thawed{}, []*thawed{}, [2]thawed{}, map[string]thawed{}, map[string]*thawed{}, thawedMap{}, []byte{}, [][]byte{}, map[string][]byte{}, struct{ A thawed }{}, struct{ A *thawed }{}, struct{ A []byte }{}, struct{ A interface{} }{}, struct{ A []interface{} }{}}
	r = append(r, Space{Name: "documents", What: fmt.Sprintf("frozen objects with class and data in all forms, at the top, in lists, maps and behind references, one or two of a class, with the type registered or not, into any value and into %d types", len(dests)), Prog: func(c *Ctx, t *T) {
		class := oneOf(c, classes)
		data := oneOf(c, payloads)
		form := c.Choose(3)
		dform := c.Choose(2)
		if form == 0 && len(class) > 31 || dform == 0 && len(data) > 31 {
			c.Ready()
			return
		}
		place := c.Choose(6)
		same := c.Choose(3) // how a second object names its class
		into := c.Choose(len(dests) + 3)
		c.Ready()
		obj := func(second bool, at int) []byte {
			tail := cat([]byte{0x28, 0x2b, 1}, str(dform, data))
			cls := str(form, class)
			if second {
				switch same {
				case 1:
					return cat([]byte{0x32, 0x2f}, []byte{byte(at)}, tail)
				case 2:
					return cat([]byte{0x33}, []byte{byte(at)}, tail)
				}
			}
			return cat([]byte{0x32}, cls, tail)
		}
		var body []byte
		n := 1
		switch place {
		case 0:
			body = obj(false, 0)
		case 1: // two in a list
			body = cat([]byte{0x2b, 2}, obj(false, 0), obj(true, 4))
			n = 2
		case 2:
			body = cat([]byte{0x2a, 1}, gen.Short("A"), obj(false, 0))
		case 3:
			body = cat([]byte{0x28}, obj(false, 0))
		case 4:
			body = cat([]byte{0x42}, []byte{0x28}, obj(false, 0), []byte{0x28}, obj(true, 4))
			n = 2
		case 5:
			body = cat([]byte{0x51}, gen.Short("A"), []byte{0x28}, obj(false, 0))
		}
		doc := rawDoc(3, body)
		if into >= len(dests) {
			dec := sereal.NewDecoder()
			dec.PerlCompat = into == len(dests)+2
			m := ref.Mode{PerlCompat: dec.PerlCompat}
			if into > len(dests) {
				dec.RegisterName(class, &thawed{})
				dec.RegisterName("other", &hStruct{})
				m.Registered = func(cl string, b []byte) (func(v interface{}) error, bool) {
					return func(v interface{}) error { return deepSame(&thawed{string(b), 1}, v) }, cl == class
				}
			}
			got, err := decodeAny(dec, doc)
			d, perr := ref.Parse(doc)
			if perr != nil {
				panic(perr)
			}
			if err == nil {
				err = ref.SameDecoded(d.Body, got, m)
			}
			if err != nil {
				t.Failf("%s, %d: %v", hexdump(doc), into-len(dests), err)
			}
			t.Count("as any value")
			return
		}
		p16into(t, doc, reflect.TypeOf(dests[into]), place, n, class, data)
	}})

	// what is no single byte string
	args := [][]byte{gen.Short("x"), {0x26, 0}, gen.UTF8("x"), {7}, {0x25}, {0x2f, 3}, {0x28, 0x61, 'x'}, {0x41, 0x61, 'x'}, {0x3f, 0x61, 'x'}, {0xe1, 'x'}}
	heads := [][]byte{{0x28, 0x2b}, {0x28, 0xab}, {0xa8, 0x2b}, {0x40}, {0x3f, 0x28, 0x2b}, {0x28, 0x3f, 0x2b}, {0x2b}, {0x28, 0x2a}, {0x28, 0x28, 0x2b}, {}}
	r = append(r, Space{Name: "arguments", What: fmt.Sprintf("frozen objects with all lists of up to 3 out of %d arguments, and other things in place of the list: what is not a single byte string is not taken for one", len(args)), Prog: func(c *Ctx, t *T) {
		head := oneOf(c, heads)
		n := c.Choose(4)
		var list []byte
		for i := 0; i < n; i++ {
			list = append(list, oneOf(c, args)...)
		}
		into := c.Choose(5)
		c.Ready()
		body := cat([]byte{0x32}, gen.Short("Cls"), head)
		switch {
		case len(head) == 0:
			if n != 1 {
				return
			}
		case head[len(head)-1] == 0x40:
			body[len(body)-1] += byte(n)
		case head[len(head)-1] == 0x2a:
			if n&1 == 1 {
				return
			}
			body = append(body, byte(n/2))
		default:
			body = append(body, byte(n))
		}
		doc := rawDoc(3, append(body, list...))
		d, perr := ref.Parse(doc)
		single := ""
		if perr == nil {
			x := d.Body.Kids[0]
			perr = errors.New("not a single byte string")
			if x.Kind == ref.Ref && x.Kids[0].Kind == ref.Array && len(x.Kids[0].Kids) == 1 {
				x = x.Kids[0].Kids[0]
				for x.Kind == ref.Ref { // which decoding may ignore
					x = x.Kids[0]
				}
				if x.Kind == ref.Bin {
					perr, single = nil, x.S
				}
			}
		}
		dec := sereal.NewDecoder()
		var got interface{}
		var same func() error
		switch into {
		case 0, 1:
			dec.PerlCompat = into == 1
			got = new(interface{})
			same = func() error {
				return deepSame(&sereal.PerlFreeze{Class: "Cls", Data: []byte(single)}, *got.(*interface{}))
			}
		case 2:
			dec.RegisterName("Cls", &thawed{})
			got = new(interface{})
			same = func() error { return deepSame(&thawed{single, 1}, *got.(*interface{})) }
		case 3:
			got = &thawed{}
			same = func() error { return deepSame(&thawed{single, 1}, got) }
		case 4:
			got = new([]byte)
			same = func() error { return deepSame([]byte(single), *got.(*[]byte)) }
		}
		err := safe(func() error { return dec.Unmarshal(doc, got) })
		switch {
		case err == nil && perr != nil:
			t.Failf("%s, %d: %v, but decoded into %s", hexdump(doc), into, perr, ref.Show(got))
		case err != nil && perr == nil && !d.Feats.FreezeOdd:
			t.Failf("%s, %d: %v", hexdump(doc), into, err)
		case err == nil:
			t.Count("thawed")
			if err := same(); err != nil {
				t.Failf("%s, %d: %v", hexdump(doc), into, err)
			}
		default:
			t.Count("rejected")
		}
	}})

	// what can be registered
	r = append(r, Space{Name: "registration", What: "classes registered with values and pointers of types whose UnmarshalBinary has a value or a pointer receiver, registered once, again with another type, or under several names, and what cannot be registered", Prog: func(c *Ctx, t *T) {
		regs := []interface{}{&thawed{}, thawed{}, &thawed{"used", 9}, hString("x"), new(hString), hSlice{1}, valueThaw{}, &valueThaw{}, valueThaw{new(string)}, nil}
		a, b := c.Choose(len(regs)), c.Choose(len(regs))
		other := c.Bool() // b is registered under another name
		n := 1 + c.Choose(2)
		c.Ready()
		d := sereal.NewDecoder()
		final := regs[a]
		reg := func(name string, v interface{}) {
			if v != nil {
				d.RegisterName(name, v)
			}
		}
		err := safe(func() error {
			reg("Cls", regs[a])
			if other {
				reg("Other", regs[b])
			} else if regs[b] != nil {
				reg("Cls", regs[b])
				final = regs[b]
			}
			return nil
		})
		if err != nil {
			t.Failf("RegisterName with %T and %T: %v", regs[a], regs[b], err)
			return
		}
		bad := safe(func() error { d.RegisterName("Cls", 7); return nil })
		if !isPanic(bad) {
			t.Failf("RegisterName takes an int")
		}
		doc := rawDoc(3, cat([]byte{0x42, 0x32}, gen.Short("Cls"), []byte{0x28, 0x2b, 1}, gen.Short("12"), []byte{0x32}, gen.Short("None"), []byte{0x28, 0x2b, 1}, gen.Short("13")))
		var want interface{}
		switch final.(type) {
		case nil:
			want = &sereal.PerlFreeze{Class: "Cls", Data: []byte("12")}
		case thawed, *thawed:
			want = &thawed{"12", 1}
		case hString, *hString:
			x := hString("12")
			want = &x
		case hSlice, *hSlice:
			want = &hSlice{12}
		case valueThaw, *valueThaw:
			want = &valueThaw{}
		}
		for i := 0; i < n; i++ {
			got, err := decodeAny(d, doc)
			if err == nil {
				err = deepSame([]interface{}{want, &sereal.PerlFreeze{Class: "None", Data: []byte("13")}}, got)
			}
			if err != nil {
				t.Failf("%T and %T registered, %v: %v", regs[a], regs[b], other, err)
				return
			}
		}
		t.Count("registered")
	}})

	// hooks that fail
	r = append(r, Space{Name: "errors", What: "values of which one fails or panics, anywhere in up to 4 positions of all kinds of containers, and documents that such types are decoded from", Prog: func(c *Ctx, t *T) {
		n := 1 + c.Choose(4)
		at := c.Choose(n)
		place := c.Choose(9)
		ptrs := c.Bool()
		k := oneOf(c, []config{{version: 3}, {version: 1, perl: true}, {version: 3, comp: gen.Zlib}, {version: 3, nofreeze: true}})
		c.Ready()
		p16errors(t, k, n, at, place, ptrs)
	}})
	return r
}

// p16into decodes frozen objects into a type.
func p16into(t *T, doc []byte, typ reflect.Type, place, n int, class, data string) {
	dst := reflect.New(typ)
	if typ.Kind() == reflect.Map && typ.Elem().Kind() == reflect.String {
		dst.Elem().Set(reflect.ValueOf(thawedMap{}))
	}
	err := safe(func() error { return sereal.Unmarshal(doc, dst.Interface()) })
	if isPanic(err) {
		t.Failf("%s into %v: %v", hexdump(doc), typ, err)
		return
	}
	list := place == 1 || place == 4
	hash := place == 2 || place == 5
	item := reflect.TypeOf(thawed{})
	fits := false
	want := func(it reflect.Type) (x reflect.Value) { // what one item has to become
		w := thawed{data, 1}
		switch it {
		case item:
			return reflect.ValueOf(w)
		case reflect.PtrTo(item):
			return reflect.ValueOf(&w)
		case reflect.TypeOf([]byte{}):
			return reflect.ValueOf([]byte(data))
		case reflect.TypeOf(thawedMap{}):
			return reflect.ValueOf(thawedMap{"got": data + "."})
		case anyType:
			return reflect.ValueOf(&sereal.PerlFreeze{Class: class, Data: []byte(data)})
		}
		return
	}
	exp := reflect.New(typ).Elem()
	switch {
	case !list && !hash:
		if x := want(typ); x.IsValid() {
			exp.Set(x)
			fits = true
		}
	case list && (typ.Kind() == reflect.Slice || typ.Kind() == reflect.Array):
		if x := want(typ.Elem()); x.IsValid() {
			if typ.Kind() == reflect.Slice {
				exp.Set(reflect.MakeSlice(typ, n, n))
			}
			for i := 0; i < n; i++ {
				exp.Index(i).Set(want(typ.Elem()))
			}
			fits = true
		}
	case hash && typ.Kind() == reflect.Map && typ != reflect.TypeOf(thawedMap{}):
		if x := want(typ.Elem()); x.IsValid() {
			exp.Set(reflect.MakeMap(typ))
			exp.SetMapIndex(reflect.ValueOf("A"), x)
			fits = true
		}
	case hash && typ.Kind() == reflect.Struct && typ != item:
		if x := want(typ.Field(0).Type); x.IsValid() {
			exp.Field(0).Set(x)
			fits = true
		}
	}
	switch {
	case !fits:
		t.Count("does not fit")
	case err != nil:
		t.Failf("%s into %v: %v", hexdump(doc), typ, err)
	default:
		t.Count("thawed")
		got := dst.Elem().Interface()
		if e := deepSame(exp.Interface(), got); e != nil {
			t.Failf("%s into %v: %v", hexdump(doc), typ, e)
		}
	}
}

var errHook = errors.New("the error of the hook")

type failing struct{ Bad bool }

func (f failing) MarshalBinary() ([]byte, error) {
	if f.Bad {
		return []byte("unused"), errHook
	}
	return []byte("fine"), nil
}

func (f *failing) UnmarshalBinary(b []byte) error {
	if string(b) == "bad" {
		return errHook
	}
	return nil
}

func p16errors(t *T, k config, n, at, place int, ptrs bool) {
	xs := make([]failing, n)
	xs[at].Bad = true
	var v interface{}
	any := make([]interface{}, n)
	for i := range xs {
		any[i] = xs[i]
		if ptrs {
			any[i] = &xs[i]
		}
	}
	last := any[at]
	switch place {
	case 0:
		v = xs
	case 1:
		v = any
	case 2:
		v = map[string]failing{"k": xs[at]}
	case 3:
		v = map[string]interface{}{"k": any}
	case 4:
		v = struct{ A interface{} }{any}
	case 5:
		v = struct{ A, B interface{} }{1, &any}
	case 6:
		v = last
	case 7:
		v = sereal.PerlObject{Class: "c", Reference: &any}
	case 8:
		v = [][]*failing{{&xs[0]}, {&xs[at], nil}}
	}
	what := fmt.Sprintf("%v: %#v", k, v)
	_, err := k.marshal(nil, nil, v)
	if k.nofreeze {
		if err != nil {
			t.Failf("%s: %v", what, err)
		}
	} else if !errors.Is(err, errHook) {
		t.Failf("%s: %v instead of the hook's error", what, err)
	}
	if _, err = k.marshal(nil, v, 7); k.version > 1 && !k.nofreeze && !errors.Is(err, errHook) {
		t.Failf("%s in the header: %v instead of the hook's error", what, err)
	}
	// and back
	xs[at].Bad = false
	doc := []byte{0x2b, byte(n)}
	for i := 0; i < n; i++ {
		if ptrs {
			doc = append(doc, 0x28)
		}
		data := "good"
		if i == at {
			data = "bad"
		}
		doc = cat(doc, []byte{0x32}, gen.Short("Cls"), []byte{0x28, 0x2b, 1}, gen.Short(data))
	}
	switch place {
	case 2:
		doc = cat([]byte{0x2a, 1}, gen.Short("A"), doc)
	case 3:
		doc = cat([]byte{0x28}, doc)
	case 4:
		doc = cat([]byte{0x2b, 1}, doc)
	}
	full := rawDoc(3, doc)
	var dst interface{} = new([]failing)
	d := sereal.NewDecoder()
	switch {
	case place == 2:
		dst = new(struct{ A []failing })
	case place == 3:
		dst = new([]*failing)
	case place == 4:
		dst = new([][]failing)
	case place > 4:
		dst = new(interface{})
		d.RegisterName("Cls", &failing{})
	}
	if err := safe(func() error { return d.Unmarshal(full, dst) }); !errors.Is(err, errHook) {
		t.Failf("%s into %T: %v instead of the hook's error", hexdump(full), dst, err)
	}
	t.Count("failed")
}
