package checks

import "reflect"

// twins are structs of one name, with other fields.
var twins = []reflect.Type{twinA(), twinB(), twinC()}

func twinA() reflect.Type {
	type twin struct {
		A int
		B string
	}
	return reflect.TypeOf(twin{})
}

func twinB() reflect.Type {
	type twin struct {
		B string
		A int
	}
	return reflect.TypeOf(twin{})
}

func twinC() reflect.Type {
	type twin struct {
		X int    `sereal:"A"`
		B string `sereal:"-"`
		A string `sereal:"B"`
	}
	return reflect.TypeOf(twin{})
}

// twinStructs have fields of several of them.
func twinStructs() []reflect.Type {
	r := append([]reflect.Type{}, twins...)
	for i, a := range twins {
		for _, b := range twins[i+1:] {
			for _, t := range [][2]reflect.Type{{a, b}, {b, a}} {
				r = append(r, reflect.StructOf([]reflect.StructField{field("V", t[0], ""), field("W", t[1], "")}))
			}
		}
	}
	return append(r, reflect.StructOf([]reflect.StructField{field("U", twins[2], ""), field("V", reflect.SliceOf(twins[0]), ""), field("W", reflect.PtrTo(twins[1]), "")}))
}
