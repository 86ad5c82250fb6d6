package ref

import (
	"fmt"
	"math"
	"reflect"
	"strings"

	"github.com/Sereal/Sereal/Go/sereal"
)

// Verdict tells how a document fits a typed variable.
type Verdict int

// Verdicts
const (
	Fits    Verdict = iota
	Misfit          // an error, or anything but a crash
	Unclear         // not specified
)

func (v Verdict) String() string { return [...]string{"fits", "misfit", "unclear"}[v] }

// Assignment is what decoding a document into a typed variable has to do.
type Assignment struct {
	Mode Mode
	loc  map[*Node]reflect.Value
	any  map[*Node]bool // decoded into an interface, or skipped
}

// Assign stores in dst, which must be settable, what the document n says. In
// interfaces it puts the *Node that they have to hold.
func Assign(n *Node, dst reflect.Value, m Mode) (*Assignment, Verdict) {
	a := &Assignment{Mode: m, loc: map[*Node]reflect.Value{}, any: map[*Node]bool{}}
	return a, a.assign(n, dst)
}

// Perlish tells whether n has items that PerlCompat keeps apart from plain ones.
func Perlish(n *Node, seen map[*Node]bool) bool {
	if seen[n] {
		return false
	}
	seen[n] = true
	switch n.Kind {
	case Undef, CanonUndef, Weak, Object, Freeze, Regexp:
		return true
	}
	for _, k := range n.Kids {
		if Perlish(k, seen) {
			return true
		}
	}
	return false
}

// skip notes that n and what is in it is decoded, but into no typed variable.
func (a *Assignment) skip(n *Node) Verdict {
	if a.any[n] {
		return Fits
	}
	if _, ok := a.loc[n]; ok {
		return Unclear // shared with a typed variable
	}
	a.any[n] = true
	for _, k := range n.Kids {
		if v := a.skip(k); v != Fits {
			return v
		}
	}
	return Fits
}

func (a *Assignment) assign(n *Node, dst reflect.Value) Verdict {
	var chain []*Node
	for {
		if a.any[n] {
			return Unclear // decoded into an interface before
		}
		if was, ok := a.loc[n]; ok {
			// REFP or ALIAS
			if was.Type() != dst.Type() {
				return Unclear
			}
			switch dst.Kind() {
			case reflect.Struct, reflect.Array:
				if was == dst {
					return Unclear
				}
			}
			dst.Set(was)
			for _, c := range chain {
				a.loc[c] = dst
			}
			return Fits
		}
		for _, c := range chain {
			if c == n {
				return Unclear // leads nowhere
			}
		}
		chain = append(chain, n)
		if n.Kind != Ref && n.Kind != Weak && n.Kind != Object {
			break
		}
		n = n.Kids[0]
	}
	if dst.Kind() == reflect.Interface {
		if dst.NumMethod() > 0 || !dst.IsNil() {
			return Unclear
		}
		dst.Set(reflect.ValueOf(chain[0]))
		return a.skip(chain[0])
	}
	for _, c := range chain {
		a.loc[c] = dst
	}
	if n.Kind == Undef || n.Kind == CanonUndef {
		switch dst.Kind() {
		case reflect.Ptr, reflect.Map, reflect.Slice:
			dst.Set(reflect.Zero(dst.Type()))
		default:
			if !dst.IsZero() {
				return Unclear
			}
		}
		return Fits
	}
	switch n.Kind {
	case Bool:
		if dst.Kind() != reflect.Bool {
			return Misfit
		}
		dst.SetBool(n.B == 1)
	case Int:
		switch dst.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if (int64(n.B) < 0) != n.Neg || dst.OverflowInt(int64(n.B)) {
				return Unclear
			}
			dst.SetInt(int64(n.B))
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			if n.Neg || dst.OverflowUint(n.B) {
				return Unclear
			}
			dst.SetUint(n.B)
		default:
			return Misfit
		}
	case Float, Double:
		f := math.Float64frombits(n.B)
		if n.Kind == Float {
			f = float64(math.Float32frombits(uint32(n.B)))
		}
		switch dst.Kind() {
		case reflect.Float64:
		case reflect.Float32:
			if float64(float32(f)) != f {
				return Unclear
			}
		default:
			return Misfit
		}
		dst.SetFloat(f)
	case Str, Bin:
		switch {
		case dst.Kind() == reflect.String:
			dst.SetString(n.S)
		case n.Kind == Bin && dst.Kind() == reflect.Slice && dst.Type().Elem().Kind() == reflect.Uint8:
			if dst.Type().Elem().PkgPath() != "" || dst.Type().Name() != "" || !dst.IsNil() {
				return Unclear
			}
			dst.SetBytes([]byte(n.S))
		case n.Kind == Bin && dst.Kind() == reflect.Array && dst.Type().Elem().Kind() == reflect.Uint8:
			if dst.Type().Elem().PkgPath() != "" {
				return Unclear
			}
			reflect.Copy(dst.Slice(0, dst.Len()), reflect.ValueOf([]byte(n.S)))
		default:
			return Misfit
		}
	case Array:
		switch dst.Kind() {
		case reflect.Slice:
			// (elements there are filled in; what becomes of a list of
			// another length is not specified)
			if dst.Len() == 0 {
				dst.Set(reflect.MakeSlice(dst.Type(), len(n.Kids), len(n.Kids)))
			} else if dst.Len() != len(n.Kids) {
				return Unclear
			}
		case reflect.Array:
		default:
			return Misfit
		}
		for i, k := range n.Kids {
			v := Fits
			if i < dst.Len() {
				v = a.assign(k, dst.Index(i))
			} else {
				v = a.skip(k)
			}
			if v != Fits {
				return v
			}
		}
	case Hash:
		return a.hash(n, dst)
	case Freeze:
		if dst.Kind() == reflect.Slice && dst.Type() == reflect.TypeOf([]byte{}) && dst.IsNil() {
			dst.SetBytes([]byte(n.Kids[0].Kids[0].Kids[0].S))
			return a.skip(n.Kids[0])
		}
		return Unclear
	case Regexp:
		if dst.Type() == reflect.TypeOf((*sereal.PerlRegexp)(nil)) {
			dst.Set(reflect.ValueOf(&sereal.PerlRegexp{Pattern: []byte(n.S), Modifiers: []byte(n.S2)}))
			return Fits
		}
		return Misfit
	default:
		return Unclear
	}
	return Fits
}

func (a *Assignment) hash(n *Node, dst reflect.Value) Verdict {
	for depth := 0; dst.Kind() == reflect.Ptr; depth++ {
		if depth == 100 {
			return Unclear
		}
		if dst.IsNil() {
			dst.Set(reflect.New(dst.Type().Elem()))
		}
		dst = dst.Elem()
	}
	switch dst.Kind() {
	case reflect.Map:
		if dst.IsNil() {
			dst.Set(reflect.MakeMap(dst.Type()))
		}
		if dst.Type().Key().Kind() != reflect.String {
			if len(n.Keys) == 0 {
				return Unclear
			}
			return Misfit
		}
		for i, k := range n.Keys {
			key := reflect.ValueOf(k.S).Convert(dst.Type().Key())
			x := reflect.New(dst.Type().Elem()).Elem()
			if old := dst.MapIndex(key); old.IsValid() && x.Kind() != reflect.Interface {
				x.Set(old)
			}
			if v := a.assign(n.Kids[i], x); v != Fits {
				return v
			}
			dst.SetMapIndex(key, x)
		}
	case reflect.Struct:
		fields := map[string]int{}
		for i := 0; i < dst.NumField(); i++ {
			f := dst.Type().Field(i)
			name := f.Tag.Get("sereal")
			if name == "-" || name == "" && f.PkgPath != "" {
				continue
			}
			if f.PkgPath != "" {
				return Unclear // a tagged field that cannot be set
			}
			if name == "" {
				name = f.Name
			}
			fields[name] = i
		}
		for i, k := range n.Keys {
			f, ok := fields[k.S]
			if !ok {
				f, ok = fields[strings.Title(k.S)]
			}
			v := Fits
			if ok {
				v = a.assign(n.Kids[i], dst.Field(f))
			} else {
				v = a.skip(n.Kids[i])
			}
			if v != Fits {
				return v
			}
		}
	default:
		return Misfit
	}
	return Fits
}

type comparison struct {
	m    Mode
	fwd  map[ident]ident
	back map[ident]ident
}

// Same tells whether got, a variable that has been decoded into, is like want,
// which Assign has filled in.
func Same(want, got reflect.Value, m Mode) error {
	c := &comparison{m, map[ident]ident{}, map[ident]ident{}}
	return c.cmp(want, got, "top")
}

// once compares identities and tells whether the pair is a new one.
func (c *comparison) once(want, got reflect.Value, path string) (bool, error) {
	w, g := ident{want.Pointer(), want.Type(), 0}, ident{got.Pointer(), got.Type(), 0}
	if was, ok := c.fwd[w]; ok && was != g {
		return false, fmt.Errorf("at %s: one %v comes out as two", path, want.Type())
	} else if ok {
		return false, nil
	}
	if was, ok := c.back[g]; ok && was != w {
		return false, fmt.Errorf("at %s: two %v come out as one", path, want.Type())
	}
	c.fwd[w], c.back[g] = g, w
	return true, nil
}

func (c *comparison) cmp(want, got reflect.Value, path string) error {
	bad := func() error { return fmt.Errorf("at %s: %s instead of %s", path, show(got, 4), show(want, 4)) }
	switch want.Kind() {
	case reflect.Interface:
		if want.IsNil() {
			if !got.IsNil() {
				return bad()
			}
			return nil
		}
		if n, ok := want.Interface().(*Node); ok {
			if err := SameDecoded(n, got.Interface(), c.m); err != nil {
				return fmt.Errorf("at %s: %v", path, err)
			}
			return nil
		}
		if !reflect.DeepEqual(want.Interface(), got.Interface()) {
			return bad()
		}
	case reflect.Ptr:
		if want.IsNil() || got.IsNil() {
			if want.IsNil() != got.IsNil() {
				return bad()
			}
			return nil
		}
		if want.Type().Elem().Size() > 0 {
			if more, err := c.once(want, got, path); err != nil || !more {
				return err
			}
		}
		return c.cmp(want.Elem(), got.Elem(), PathTo(path))
	case reflect.Map:
		if want.IsNil() != got.IsNil() || want.Len() != got.Len() {
			return bad()
		}
		if want.IsNil() {
			return nil
		}
		if more, err := c.once(want, got, path); err != nil || !more {
			return err
		}
		for _, k := range want.MapKeys() {
			x := got.MapIndex(k)
			if !x.IsValid() {
				return bad()
			}
			if err := c.cmp(want.MapIndex(k), x, PathN(path, "{%v}", k)); err != nil {
				return err
			}
		}
	case reflect.Slice, reflect.Array:
		if want.Len() != got.Len() {
			return bad()
		}
		if want.Kind() == reflect.Slice && want.Len() > 0 && want.Type().Elem().Size() > 0 {
			if more, err := c.once(want, got, path); err != nil || !more {
				return err
			}
		}
		for i := 0; i < want.Len(); i++ {
			if err := c.cmp(want.Index(i), got.Index(i), PathN(path, "[%d]", i)); err != nil {
				return err
			}
		}
	case reflect.Struct:
		for i := 0; i < want.NumField(); i++ {
			if err := c.cmp(want.Field(i), got.Field(i), Path(path, "."+want.Type().Field(i).Name)); err != nil {
				return err
			}
		}
	case reflect.Bool:
		if want.Bool() != got.Bool() {
			return bad()
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if want.Int() != got.Int() {
			return bad()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if want.Uint() != got.Uint() {
			return bad()
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(want.Float()) != math.Float64bits(got.Float()) {
			return bad()
		}
	case reflect.String:
		if want.String() != got.String() {
			return bad()
		}
	}
	return nil
}
