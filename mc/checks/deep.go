package checks

import (
	"fmt"
	"math"
	"reflect"

	"verif/mc/ref"
)

// deepSame tells whether two values of any types are the same graphs: the same
// types and scalars, and pointers, maps and slices shared in the same places.
func deepSame(want, got interface{}) error {
	d := &deep{map[ptrID]ptrID{}, map[ptrID]ptrID{}}
	return d.cmp(reflect.ValueOf(want), reflect.ValueOf(got), "top")
}

type deep struct{ fwd, back map[ptrID]ptrID }

// seen notes that two things correspond, and tells whether that was known.
func (d *deep) seen(w, g reflect.Value, path string) (bool, error) {
	wi, gi := ptrID{w.Type(), w.Pointer()}, ptrID{g.Type(), g.Pointer()}
	x, ok := d.fwd[wi]
	y, ok2 := d.back[gi]
	if ok != ok2 || ok && (x != gi || y != wi) {
		return true, fmt.Errorf("at %s: shared differently", path)
	}
	d.fwd[wi], d.back[gi] = gi, wi
	return ok, nil
}

func (d *deep) cmp(w, g reflect.Value, path string) error {
	if len(path) > 300 {
		path = "deeper"
	}
	if w.IsValid() != g.IsValid() {
		return fmt.Errorf("at %s: %v instead of %v", path, g, w)
	}
	if !w.IsValid() {
		return nil
	}
	if w.Type() != g.Type() {
		return fmt.Errorf("at %s: %v instead of %v", path, g.Type(), w.Type())
	}
	differ := func() error { return fmt.Errorf("at %s: %v instead of %v", path, g, w) }
	switch w.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Slice, reflect.Interface:
		if w.IsNil() != g.IsNil() {
			return differ()
		}
		if w.IsNil() {
			return nil
		}
	}
	switch w.Kind() {
	case reflect.Ptr:
		if w.Type().Elem().Size() > 0 {
			if ok, err := d.seen(w, g, path); ok {
				return err
			}
		}
		return d.cmp(w.Elem(), g.Elem(), ref.PathTo(path))
	case reflect.Interface:
		return d.cmp(w.Elem(), g.Elem(), path)
	case reflect.Map:
		if w.Len() != g.Len() {
			return fmt.Errorf("at %s: %d keys instead of %d", path, g.Len(), w.Len())
		}
		if ok, err := d.seen(w, g, path); ok {
			return err
		}
		for _, k := range w.MapKeys() {
			x := g.MapIndex(k)
			if !x.IsValid() {
				return fmt.Errorf("at %s: no key %v", path, k)
			}
			if err := d.cmp(w.MapIndex(k), x, ref.PathN(path, "{%v}", k)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Slice, reflect.Array:
		if w.Len() != g.Len() {
			return fmt.Errorf("at %s: %d elements instead of %d", path, g.Len(), w.Len())
		}
		if w.Len() == 0 {
			return nil
		}
		if w.Kind() == reflect.Slice {
			if ok, err := d.seen(w, g, path); ok {
				return err
			}
		}
		for i := 0; i < w.Len(); i++ {
			if err := d.cmp(w.Index(i), g.Index(i), ref.PathN(path, "[%d]", i)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Struct:
		for i := 0; i < w.NumField(); i++ {
			if err := d.cmp(w.Field(i), g.Field(i), ref.Path(path, "."+w.Type().Field(i).Name)); err != nil {
				return err
			}
		}
		return nil
	case reflect.Bool:
		if w.Bool() != g.Bool() {
			return differ()
		}
	case reflect.String:
		if w.String() != g.String() {
			return differ()
		}
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(w.Float()) != math.Float64bits(g.Float()) {
			return differ()
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if w.Int() != g.Int() {
			return differ()
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if w.Uint() != g.Uint() {
			return differ()
		}
	case reflect.Complex64, reflect.Complex128:
		if w.Complex() != g.Complex() {
			return differ()
		}
	case reflect.Chan, reflect.Func, reflect.UnsafePointer:
		if w.Pointer() != g.Pointer() {
			return differ()
		}
	}
	return nil
}
