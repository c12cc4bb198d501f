package ref

import (
	"fmt"
	"math"
	"reflect"
	"unsafe"
)

// Diff compares two values deeply and exactly (floats by bits, nil slices and
// maps distinct from empty ones); it returns "" when they are equal, otherwise
// the path of the first difference.
func Diff(a, b interface{}) string {
	d := differ{seen: map[[2]unsafe.Pointer]bool{}}
	return d.diff(reflect.ValueOf(a), reflect.ValueOf(b), "", 0)
}

// in prepends a path segment to a difference found below.
func in(seg string, r string) string {
	if r == "" {
		return ""
	}
	if len(r) > 4000 {
		return r
	}
	return seg + r
}

type differ struct {
	seen map[[2]unsafe.Pointer]bool
}

func (d *differ) diff(a, b reflect.Value, path string, depth int) string {
	if depth > 200000 {
		return path + ": too deep"
	}
	if a.IsValid() != b.IsValid() {
		return fmt.Sprintf("%s: %s vs %s", path, show(a), show(b))
	}
	if !a.IsValid() {
		return ""
	}
	if a.Type() != b.Type() {
		return fmt.Sprintf("%s: type %v vs %v", path, a.Type(), b.Type())
	}
	switch a.Kind() {
	case reflect.Float32, reflect.Float64:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return fmt.Sprintf("%s: %v vs %v", path, a.Float(), b.Float())
		}
		return ""
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: nil %v vs nil %v", path, a.IsNil(), b.IsNil())
			}
			return ""
		}
		k := [2]unsafe.Pointer{a.UnsafePointer(), b.UnsafePointer()}
		if d.seen[k] {
			return ""
		}
		d.seen[k] = true
		return in(".*", d.diff(a.Elem(), b.Elem(), "", depth+1))
	case reflect.Interface:
		return in(".(i)", d.diff(a.Elem(), b.Elem(), "", depth+1))
	case reflect.Slice:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil slice %v vs %v", path, a.IsNil(), b.IsNil())
		}
		fallthrough
	case reflect.Array:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: len %d vs %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if r := d.diff(a.Index(i), b.Index(i), "", depth+1); r != "" {
				return in(fmt.Sprintf("[%d]", i), r)
			}
		}
		return ""
	case reflect.Map:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil map %v vs %v", path, a.IsNil(), b.IsNil())
		}
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: map len %d vs %d", path, a.Len(), b.Len())
		}
		for _, k := range a.MapKeys() {
			av, bv := a.MapIndex(k), b.MapIndex(k)
			if !bv.IsValid() {
				return fmt.Sprintf("%s: key %s missing", path, show(k))
			}
			if r := d.diff(av, bv, "", depth+1); r != "" {
				return in(fmt.Sprintf("[%s]", show(k)), r)
			}
		}
		return ""
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if r := d.diff(a.Field(i), b.Field(i), "", depth+1); r != "" {
				return in("."+a.Type().Field(i).Name, r)
			}
		}
		return ""
	case reflect.Bool:
		if a.Bool() != b.Bool() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Bool(), b.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if a.Int() != b.Int() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Int(), b.Int())
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		if a.Uint() != b.Uint() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Uint(), b.Uint())
		}
	case reflect.String:
		if a.String() != b.String() {
			return fmt.Sprintf("%s: %q vs %q", path, trunc(a.String()), trunc(b.String()))
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if a.IsNil() != b.IsNil() {
			return fmt.Sprintf("%s: nil %v vs %v", path, a.IsNil(), b.IsNil())
		}
	case reflect.Complex64, reflect.Complex128:
		if a.Complex() != b.Complex() {
			return fmt.Sprintf("%s: %v vs %v", path, a.Complex(), b.Complex())
		}
	}
	return ""
}

func trunc(s string) string {
	if len(s) > 300 {
		return s[:300] + "…"
	}
	return s
}

func show(v reflect.Value) string {
	if !v.IsValid() {
		return "nil"
	}
	return trunc(fmt.Sprintf("(%v)%v", v.Type(), v))
}
