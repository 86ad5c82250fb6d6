package checks

import (
	"fmt"
	"reflect"
	"sort"
	"strings"
	"unsafe"

	"verif/mc/ref"

	"github.com/Sereal/Sereal/Go/sereal"
)

// span is a piece of memory.
type span struct {
	from, to uintptr
	kind     byte // 's'lice up to its capacity, 'p'ointer's target, 'm'ap, 't'ext
	path     string
}

func (s span) String() string { return fmt.Sprintf("%s (%c)", s.path, s.kind) }

// the one undef that all decoded values share
var sharedUndef = func() uintptr {
	var v interface{}
	(&sereal.Decoder{PerlCompat: true}).Unmarshal([]byte("=\xf3rl\x03\x00\x39"), &v)
	if p, ok := v.(*sereal.PerlUndef); ok {
		return uintptr(unsafe.Pointer(p))
	}
	return 0
}()

// memory lists what a value consists of.
func memory(v interface{}) []span {
	m := &memoryOf{seen: map[ptrID]bool{}}
	m.walk(reflect.ValueOf(v), "top")
	sort.Slice(m.spans, func(i, j int) bool { return m.spans[i].from < m.spans[j].from })
	return m.spans
}

type memoryOf struct {
	seen  map[ptrID]bool
	spans []span
}

func (m *memoryOf) add(kind byte, at, size uintptr, path string) {
	if size > 0 && at != sharedUndef {
		m.spans = append(m.spans, span{at, at + size, kind, path})
	}
}

func (m *memoryOf) again(v reflect.Value) bool {
	id := ptrID{v.Type(), v.Pointer()}
	if m.seen[id] && v.Kind() != reflect.Slice {
		return true
	}
	m.seen[id] = true
	return false
}

func (m *memoryOf) walk(v reflect.Value, path string) {
	if len(path) > 300 {
		path = "deeper"
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || m.again(v) {
			return
		}
		m.add('p', v.Pointer(), v.Type().Elem().Size(), path)
		m.walk(v.Elem(), ref.PathTo(path))
	case reflect.Interface:
		m.walk(v.Elem(), path)
	case reflect.Map:
		if v.IsNil() || m.again(v) {
			return
		}
		m.add('m', v.Pointer(), 1, path)
		for _, k := range v.MapKeys() {
			m.walk(k, path+" key")
			m.walk(v.MapIndex(k), ref.PathN(path, "{%v}", k))
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		id := ptrID{v.Type(), v.Pointer()}
		if m.seen[id] && v.Len() > 0 {
			return
		}
		m.seen[id] = true
		m.add('s', v.Pointer(), uintptr(v.Cap())*v.Type().Elem().Size(), path)
		for i := 0; i < v.Len(); i++ {
			m.walk(v.Index(i), ref.PathN(path, "[%d]", i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			m.walk(v.Index(i), ref.PathN(path, "[%d]", i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			m.walk(v.Field(i), ref.Path(path, "."+v.Type().Field(i).Name))
		}
	case reflect.String:
		if s := v.String(); s != "" {
			m.add('t', uintptr(unsafe.Pointer(unsafe.StringData(s))), uintptr(len(s)), path)
		}
	}
}

// within finds pieces of a value that lie in a buffer.
func within(spans []span, buf []byte) error {
	if cap(buf) == 0 {
		return nil
	}
	from := uintptr(unsafe.Pointer(&buf[:1][0]))
	to := from + uintptr(cap(buf))
	for _, s := range spans {
		if s.from < to && from < s.to {
			return fmt.Errorf("%v lies in it", s)
		}
	}
	return nil
}

// apart finds memory that two values share, other than the text of strings.
func apart(a, b []span) error {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i].kind == 't':
			i++
		case b[j].kind == 't':
			j++
		case a[i].from < b[j].to && b[j].from < a[i].to:
			return fmt.Errorf("%v and %v are the same memory", a[i], b[j])
		case a[i].to <= b[j].from:
			i++
		default:
			j++
		}
	}
	return nil
}

// overlaps finds slices of one value that overlap without being the same, or of
// which one could be extended into the other.
func overlaps(a []span, shared bool) error {
	var last *span
	for i := range a {
		s := &a[i]
		if s.kind != 's' {
			continue
		}
		if last != nil && s.from < last.to && !(shared && s.from == last.from) {
			return fmt.Errorf("%v and %v overlap", *last, *s)
		}
		if last == nil || s.to > last.to {
			last = s
		}
	}
	return nil
}

// print writes down a value with all it refers to, and slices up to their
// capacity.
func snapshot(v interface{}) string {
	p := &printer{seen: map[ptrID]int{}}
	p.walk(reflect.ValueOf(v))
	return p.b.String()
}

type printer struct {
	seen map[ptrID]int
	b    strings.Builder
}

func (p *printer) known(v reflect.Value) bool {
	id := ptrID{v.Type(), v.Pointer()}
	n, ok := p.seen[id]
	if !ok {
		n = len(p.seen)
		p.seen[id] = n
	}
	fmt.Fprintf(&p.b, "#%d %x ", n, id.p)
	return ok
}

func (p *printer) walk(v reflect.Value) {
	if !v.IsValid() {
		p.b.WriteString("nothing ")
		return
	}
	fmt.Fprintf(&p.b, "%v(", v.Type())
	defer p.b.WriteString(") ")
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface, reflect.Map, reflect.Slice:
		if v.IsNil() {
			p.b.WriteString("nil ")
			return
		}
	}
	switch v.Kind() {
	case reflect.Ptr:
		if !p.known(v) {
			p.walk(v.Elem())
		}
	case reflect.Interface:
		p.walk(v.Elem())
	case reflect.Map:
		if p.known(v) {
			return
		}
		keys := v.MapKeys()
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
		for _, k := range keys {
			p.walk(k)
			p.walk(v.MapIndex(k))
		}
	case reflect.Slice:
		fmt.Fprint(&p.b, v.Len(), v.Cap())
		if v.Cap() == 0 || p.known(v) {
			return
		}
		v = v.Slice(0, v.Cap())
		if v.Type().Elem().Kind() == reflect.Uint8 {
			fmt.Fprintf(&p.b, "%q", v.Bytes())
			return
		}
		for i := 0; i < v.Len(); i++ {
			p.walk(v.Index(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			p.walk(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			p.walk(v.Field(i))
		}
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		fmt.Fprintf(&p.b, "%x", v.Pointer())
	case reflect.String:
		fmt.Fprintf(&p.b, "%q", v.String())
	default:
		fmt.Fprintf(&p.b, "%v", v)
	}
}

// scribble overwrites what a value consists of, as far as that can be done.
func scribble(v reflect.Value, seen map[ptrID]bool) {
	switch v.Kind() {
	case reflect.Ptr:
		id := ptrID{v.Type(), v.Pointer()}
		if v.IsNil() || seen[id] || v.Pointer() == sharedUndef {
			return
		}
		seen[id] = true
		scribble(v.Elem(), seen)
	case reflect.Interface:
		scribble(v.Elem(), seen)
		if v.CanSet() {
			v.Set(reflect.Zero(v.Type()))
		}
	case reflect.Map:
		id := ptrID{v.Type(), v.Pointer()}
		if v.IsNil() || seen[id] {
			return
		}
		seen[id] = true
		for _, k := range v.MapKeys() {
			scribble(v.MapIndex(k), seen)
			v.SetMapIndex(k, reflect.Zero(v.Type().Elem()))
		}
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 {
			return
		}
		id := ptrID{v.Type(), v.Pointer()}
		if seen[id] {
			return
		}
		seen[id] = true
		v = v.Slice(0, v.Cap())
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				scribble(v.Field(i), seen)
			}
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scribbled")
		}
	case reflect.Uint8:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x5a)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 0x5a)
		}
	}
}

// guarded puts a document between bytes that must not change either.
type guarded struct {
	all, was []byte
	doc      []byte
}

func guard(doc []byte) *guarded {
	g := &guarded{}
	g.all = make([]byte, len(doc)+64)
	for i := range g.all {
		g.all[i] = 0xa5
	}
	copy(g.all[32:], doc)
	g.doc = g.all[32 : 32+len(doc)] // with capacity to spare
	g.was = clone(g.all)
	return g
}

func (g *guarded) changed() error {
	for i := range g.all {
		if g.all[i] != g.was[i] {
			return fmt.Errorf("byte %d of %d changed from %02x to %02x", i-32, len(g.doc), g.was[i], g.all[i])
		}
	}
	return nil
}

func (g *guarded) scribble() {
	for i := range g.all {
		g.all[i] ^= 0x5a
	}
}

// addr is where a slice starts.
func addr(b []byte) uintptr {
	if cap(b) == 0 {
		return 0
	}
	return uintptr(unsafe.Pointer(&b[:1][0]))
}
