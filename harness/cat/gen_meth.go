// Code generated by genmeth.py. DO NOT EDIT.

package cat

import (
	"fmt"
	"reflect"
)

// KVJBool is a kind with methods.
type KVJBool bool

func (x KVJBool) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(bool(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJBool"+hex(s))), nil
}

// KVTBool is a kind with methods.
type KVTBool bool

func (x KVTBool) MarshalText() ([]byte, error) {
	s := fmt.Sprint(bool(x))
	return []byte("<KVTBool>" + s), nil
}

// KPJBool is a kind with methods.
type KPJBool bool

func (p *KPJBool) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(bool(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJBool"+hex(s))), nil
}

// KPTBool is a kind with methods.
type KPTBool bool

func (p *KPTBool) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(bool(x))
	return []byte("<KPTBool>" + s), nil
}

// KDJBool is a kind with methods.
type KDJBool bool

func (x *KDJBool) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = len(b)%2 == 1
	return nil
}

// KDTBool is a kind with methods.
type KDTBool bool

func (x *KDTBool) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = len(b)%2 == 1
	return nil
}

// KVJInt is a kind with methods.
type KVJInt int

func (x KVJInt) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(int(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJInt"+hex(s))), nil
}

// KVTInt is a kind with methods.
type KVTInt int

func (x KVTInt) MarshalText() ([]byte, error) {
	s := fmt.Sprint(int(x))
	return []byte("<KVTInt>" + s), nil
}

// KPJInt is a kind with methods.
type KPJInt int

func (p *KPJInt) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(int(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJInt"+hex(s))), nil
}

// KPTInt is a kind with methods.
type KPTInt int

func (p *KPTInt) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(int(x))
	return []byte("<KPTInt>" + s), nil
}

// KDJInt is a kind with methods.
type KDJInt int

func (x *KDJInt) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDJInt(len(b))
	return nil
}

// KDTInt is a kind with methods.
type KDTInt int

func (x *KDTInt) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDTInt(len(b))
	return nil
}

// KVJInt8 is a kind with methods.
type KVJInt8 int8

func (x KVJInt8) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(int8(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJInt8"+hex(s))), nil
}

// KVTInt8 is a kind with methods.
type KVTInt8 int8

func (x KVTInt8) MarshalText() ([]byte, error) {
	s := fmt.Sprint(int8(x))
	return []byte("<KVTInt8>" + s), nil
}

// KPJInt8 is a kind with methods.
type KPJInt8 int8

func (p *KPJInt8) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(int8(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJInt8"+hex(s))), nil
}

// KPTInt8 is a kind with methods.
type KPTInt8 int8

func (p *KPTInt8) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(int8(x))
	return []byte("<KPTInt8>" + s), nil
}

// KDJInt8 is a kind with methods.
type KDJInt8 int8

func (x *KDJInt8) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDJInt8(len(b))
	return nil
}

// KDTInt8 is a kind with methods.
type KDTInt8 int8

func (x *KDTInt8) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDTInt8(len(b))
	return nil
}

// KVJInt16 is a kind with methods.
type KVJInt16 int16

func (x KVJInt16) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(int16(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJInt16"+hex(s))), nil
}

// KVTInt16 is a kind with methods.
type KVTInt16 int16

func (x KVTInt16) MarshalText() ([]byte, error) {
	s := fmt.Sprint(int16(x))
	return []byte("<KVTInt16>" + s), nil
}

// KPJInt16 is a kind with methods.
type KPJInt16 int16

func (p *KPJInt16) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(int16(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJInt16"+hex(s))), nil
}

// KPTInt16 is a kind with methods.
type KPTInt16 int16

func (p *KPTInt16) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(int16(x))
	return []byte("<KPTInt16>" + s), nil
}

// KDJInt16 is a kind with methods.
type KDJInt16 int16

func (x *KDJInt16) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDJInt16(len(b))
	return nil
}

// KDTInt16 is a kind with methods.
type KDTInt16 int16

func (x *KDTInt16) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDTInt16(len(b))
	return nil
}

// KVJInt32 is a kind with methods.
type KVJInt32 int32

func (x KVJInt32) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(int32(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJInt32"+hex(s))), nil
}

// KVTInt32 is a kind with methods.
type KVTInt32 int32

func (x KVTInt32) MarshalText() ([]byte, error) {
	s := fmt.Sprint(int32(x))
	return []byte("<KVTInt32>" + s), nil
}

// KPJInt32 is a kind with methods.
type KPJInt32 int32

func (p *KPJInt32) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(int32(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJInt32"+hex(s))), nil
}

// KPTInt32 is a kind with methods.
type KPTInt32 int32

func (p *KPTInt32) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(int32(x))
	return []byte("<KPTInt32>" + s), nil
}

// KDJInt32 is a kind with methods.
type KDJInt32 int32

func (x *KDJInt32) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDJInt32(len(b))
	return nil
}

// KDTInt32 is a kind with methods.
type KDTInt32 int32

func (x *KDTInt32) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDTInt32(len(b))
	return nil
}

// KVJInt64 is a kind with methods.
type KVJInt64 int64

func (x KVJInt64) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(int64(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJInt64"+hex(s))), nil
}

// KVTInt64 is a kind with methods.
type KVTInt64 int64

func (x KVTInt64) MarshalText() ([]byte, error) {
	s := fmt.Sprint(int64(x))
	return []byte("<KVTInt64>" + s), nil
}

// KPJInt64 is a kind with methods.
type KPJInt64 int64

func (p *KPJInt64) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(int64(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJInt64"+hex(s))), nil
}

// KPTInt64 is a kind with methods.
type KPTInt64 int64

func (p *KPTInt64) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(int64(x))
	return []byte("<KPTInt64>" + s), nil
}

// KDJInt64 is a kind with methods.
type KDJInt64 int64

func (x *KDJInt64) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDJInt64(len(b))
	return nil
}

// KDTInt64 is a kind with methods.
type KDTInt64 int64

func (x *KDTInt64) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDTInt64(len(b))
	return nil
}

// KVJUint is a kind with methods.
type KVJUint uint

func (x KVJUint) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(uint(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJUint"+hex(s))), nil
}

// KVTUint is a kind with methods.
type KVTUint uint

func (x KVTUint) MarshalText() ([]byte, error) {
	s := fmt.Sprint(uint(x))
	return []byte("<KVTUint>" + s), nil
}

// KPJUint is a kind with methods.
type KPJUint uint

func (p *KPJUint) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(uint(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJUint"+hex(s))), nil
}

// KPTUint is a kind with methods.
type KPTUint uint

func (p *KPTUint) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(uint(x))
	return []byte("<KPTUint>" + s), nil
}

// KDJUint is a kind with methods.
type KDJUint uint

func (x *KDJUint) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDJUint(len(b))
	return nil
}

// KDTUint is a kind with methods.
type KDTUint uint

func (x *KDTUint) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDTUint(len(b))
	return nil
}

// KVJUint8 is a kind with methods.
type KVJUint8 uint8

func (x KVJUint8) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(uint8(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJUint8"+hex(s))), nil
}

// KVTUint8 is a kind with methods.
type KVTUint8 uint8

func (x KVTUint8) MarshalText() ([]byte, error) {
	s := fmt.Sprint(uint8(x))
	return []byte("<KVTUint8>" + s), nil
}

// KPJUint8 is a kind with methods.
type KPJUint8 uint8

func (p *KPJUint8) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(uint8(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJUint8"+hex(s))), nil
}

// KPTUint8 is a kind with methods.
type KPTUint8 uint8

func (p *KPTUint8) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(uint8(x))
	return []byte("<KPTUint8>" + s), nil
}

// KDJUint8 is a kind with methods.
type KDJUint8 uint8

func (x *KDJUint8) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDJUint8(len(b))
	return nil
}

// KDTUint8 is a kind with methods.
type KDTUint8 uint8

func (x *KDTUint8) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDTUint8(len(b))
	return nil
}

// KVJUint16 is a kind with methods.
type KVJUint16 uint16

func (x KVJUint16) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(uint16(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJUint16"+hex(s))), nil
}

// KVTUint16 is a kind with methods.
type KVTUint16 uint16

func (x KVTUint16) MarshalText() ([]byte, error) {
	s := fmt.Sprint(uint16(x))
	return []byte("<KVTUint16>" + s), nil
}

// KPJUint16 is a kind with methods.
type KPJUint16 uint16

func (p *KPJUint16) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(uint16(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJUint16"+hex(s))), nil
}

// KPTUint16 is a kind with methods.
type KPTUint16 uint16

func (p *KPTUint16) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(uint16(x))
	return []byte("<KPTUint16>" + s), nil
}

// KDJUint16 is a kind with methods.
type KDJUint16 uint16

func (x *KDJUint16) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDJUint16(len(b))
	return nil
}

// KDTUint16 is a kind with methods.
type KDTUint16 uint16

func (x *KDTUint16) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDTUint16(len(b))
	return nil
}

// KVJUint32 is a kind with methods.
type KVJUint32 uint32

func (x KVJUint32) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(uint32(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJUint32"+hex(s))), nil
}

// KVTUint32 is a kind with methods.
type KVTUint32 uint32

func (x KVTUint32) MarshalText() ([]byte, error) {
	s := fmt.Sprint(uint32(x))
	return []byte("<KVTUint32>" + s), nil
}

// KPJUint32 is a kind with methods.
type KPJUint32 uint32

func (p *KPJUint32) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(uint32(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJUint32"+hex(s))), nil
}

// KPTUint32 is a kind with methods.
type KPTUint32 uint32

func (p *KPTUint32) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(uint32(x))
	return []byte("<KPTUint32>" + s), nil
}

// KDJUint32 is a kind with methods.
type KDJUint32 uint32

func (x *KDJUint32) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDJUint32(len(b))
	return nil
}

// KDTUint32 is a kind with methods.
type KDTUint32 uint32

func (x *KDTUint32) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDTUint32(len(b))
	return nil
}

// KVJUint64 is a kind with methods.
type KVJUint64 uint64

func (x KVJUint64) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(uint64(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJUint64"+hex(s))), nil
}

// KVTUint64 is a kind with methods.
type KVTUint64 uint64

func (x KVTUint64) MarshalText() ([]byte, error) {
	s := fmt.Sprint(uint64(x))
	return []byte("<KVTUint64>" + s), nil
}

// KPJUint64 is a kind with methods.
type KPJUint64 uint64

func (p *KPJUint64) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(uint64(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJUint64"+hex(s))), nil
}

// KPTUint64 is a kind with methods.
type KPTUint64 uint64

func (p *KPTUint64) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(uint64(x))
	return []byte("<KPTUint64>" + s), nil
}

// KDJUint64 is a kind with methods.
type KDJUint64 uint64

func (x *KDJUint64) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDJUint64(len(b))
	return nil
}

// KDTUint64 is a kind with methods.
type KDTUint64 uint64

func (x *KDTUint64) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDTUint64(len(b))
	return nil
}

// KVJUintptr is a kind with methods.
type KVJUintptr uintptr

func (x KVJUintptr) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(uintptr(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJUintptr"+hex(s))), nil
}

// KVTUintptr is a kind with methods.
type KVTUintptr uintptr

func (x KVTUintptr) MarshalText() ([]byte, error) {
	s := fmt.Sprint(uintptr(x))
	return []byte("<KVTUintptr>" + s), nil
}

// KPJUintptr is a kind with methods.
type KPJUintptr uintptr

func (p *KPJUintptr) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(uintptr(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJUintptr"+hex(s))), nil
}

// KPTUintptr is a kind with methods.
type KPTUintptr uintptr

func (p *KPTUintptr) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(uintptr(x))
	return []byte("<KPTUintptr>" + s), nil
}

// KDJUintptr is a kind with methods.
type KDJUintptr uintptr

func (x *KDJUintptr) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDJUintptr(len(b))
	return nil
}

// KDTUintptr is a kind with methods.
type KDTUintptr uintptr

func (x *KDTUintptr) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDTUintptr(len(b))
	return nil
}

// KVJFloat32 is a kind with methods.
type KVJFloat32 float32

func (x KVJFloat32) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(float32(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJFloat32"+hex(s))), nil
}

// KVTFloat32 is a kind with methods.
type KVTFloat32 float32

func (x KVTFloat32) MarshalText() ([]byte, error) {
	s := fmt.Sprint(float32(x))
	return []byte("<KVTFloat32>" + s), nil
}

// KPJFloat32 is a kind with methods.
type KPJFloat32 float32

func (p *KPJFloat32) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(float32(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJFloat32"+hex(s))), nil
}

// KPTFloat32 is a kind with methods.
type KPTFloat32 float32

func (p *KPTFloat32) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(float32(x))
	return []byte("<KPTFloat32>" + s), nil
}

// KDJFloat32 is a kind with methods.
type KDJFloat32 float32

func (x *KDJFloat32) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDJFloat32(len(b))
	return nil
}

// KDTFloat32 is a kind with methods.
type KDTFloat32 float32

func (x *KDTFloat32) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDTFloat32(len(b))
	return nil
}

// KVJFloat64 is a kind with methods.
type KVJFloat64 float64

func (x KVJFloat64) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(float64(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJFloat64"+hex(s))), nil
}

// KVTFloat64 is a kind with methods.
type KVTFloat64 float64

func (x KVTFloat64) MarshalText() ([]byte, error) {
	s := fmt.Sprint(float64(x))
	return []byte("<KVTFloat64>" + s), nil
}

// KPJFloat64 is a kind with methods.
type KPJFloat64 float64

func (p *KPJFloat64) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(float64(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJFloat64"+hex(s))), nil
}

// KPTFloat64 is a kind with methods.
type KPTFloat64 float64

func (p *KPTFloat64) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(float64(x))
	return []byte("<KPTFloat64>" + s), nil
}

// KDJFloat64 is a kind with methods.
type KDJFloat64 float64

func (x *KDJFloat64) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDJFloat64(len(b))
	return nil
}

// KDTFloat64 is a kind with methods.
type KDTFloat64 float64

func (x *KDTFloat64) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDTFloat64(len(b))
	return nil
}

// KVJString is a kind with methods.
type KVJString string

func (x KVJString) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(string(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJString"+hex(s))), nil
}

// KVTString is a kind with methods.
type KVTString string

func (x KVTString) MarshalText() ([]byte, error) {
	s := fmt.Sprint(string(x))
	return []byte("<KVTString>" + s), nil
}

// KPJString is a kind with methods.
type KPJString string

func (p *KPJString) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(string(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJString"+hex(s))), nil
}

// KPTString is a kind with methods.
type KPTString string

func (p *KPTString) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(string(x))
	return []byte("<KPTString>" + s), nil
}

// KDJString is a kind with methods.
type KDJString string

func (x *KDJString) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDJString("J" + string(b))
	return nil
}

// KDTString is a kind with methods.
type KDTString string

func (x *KDTString) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = KDTString("T" + string(b))
	return nil
}

// KVJSlice is a kind with methods.
type KVJSlice []int

func (x KVJSlice) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(([]int)(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJSlice"+hex(s))), nil
}

// KVTSlice is a kind with methods.
type KVTSlice []int

func (x KVTSlice) MarshalText() ([]byte, error) {
	s := fmt.Sprint(([]int)(x))
	return []byte("<KVTSlice>" + s), nil
}

// KPJSlice is a kind with methods.
type KPJSlice []int

func (p *KPJSlice) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(([]int)(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJSlice"+hex(s))), nil
}

// KPTSlice is a kind with methods.
type KPTSlice []int

func (p *KPTSlice) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(([]int)(x))
	return []byte("<KPTSlice>" + s), nil
}

// KDJSlice is a kind with methods.
type KDJSlice []int

func (x *KDJSlice) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = append(*x, len(b))
	return nil
}

// KDTSlice is a kind with methods.
type KDTSlice []int

func (x *KDTSlice) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = append(*x, len(b))
	return nil
}

// KVJBytes is a kind with methods.
type KVJBytes []byte

func (x KVJBytes) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(([]byte)(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJBytes"+hex(s))), nil
}

// KVTBytes is a kind with methods.
type KVTBytes []byte

func (x KVTBytes) MarshalText() ([]byte, error) {
	s := fmt.Sprint(([]byte)(x))
	return []byte("<KVTBytes>" + s), nil
}

// KPJBytes is a kind with methods.
type KPJBytes []byte

func (p *KPJBytes) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(([]byte)(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJBytes"+hex(s))), nil
}

// KPTBytes is a kind with methods.
type KPTBytes []byte

func (p *KPTBytes) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(([]byte)(x))
	return []byte("<KPTBytes>" + s), nil
}

// KDJBytes is a kind with methods.
type KDJBytes []byte

func (x *KDJBytes) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = append(*x, b...)
	return nil
}

// KDTBytes is a kind with methods.
type KDTBytes []byte

func (x *KDTBytes) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	*x = append(*x, b...)
	return nil
}

// KVJArray is a kind with methods.
type KVJArray [2]int8

func (x KVJArray) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint(([2]int8)(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJArray"+hex(s))), nil
}

// KVTArray is a kind with methods.
type KVTArray [2]int8

func (x KVTArray) MarshalText() ([]byte, error) {
	s := fmt.Sprint(([2]int8)(x))
	return []byte("<KVTArray>" + s), nil
}

// KPJArray is a kind with methods.
type KPJArray [2]int8

func (p *KPJArray) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint(([2]int8)(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJArray"+hex(s))), nil
}

// KPTArray is a kind with methods.
type KPTArray [2]int8

func (p *KPTArray) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint(([2]int8)(x))
	return []byte("<KPTArray>" + s), nil
}

// KDJArray is a kind with methods.
type KDJArray [2]int8

func (x *KDJArray) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	x[0]++
	x[1] = int8(len(b))
	return nil
}

// KDTArray is a kind with methods.
type KDTArray [2]int8

func (x *KDTArray) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	x[0]++
	x[1] = int8(len(b))
	return nil
}

// KVJMap is a kind with methods.
type KVJMap map[string]int

func (x KVJMap) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint((map[string]int)(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJMap"+hex(s))), nil
}

// KVTMap is a kind with methods.
type KVTMap map[string]int

func (x KVTMap) MarshalText() ([]byte, error) {
	s := fmt.Sprint((map[string]int)(x))
	return []byte("<KVTMap>" + s), nil
}

// KPJMap is a kind with methods.
type KPJMap map[string]int

func (p *KPJMap) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint((map[string]int)(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJMap"+hex(s))), nil
}

// KPTMap is a kind with methods.
type KPTMap map[string]int

func (p *KPTMap) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint((map[string]int)(x))
	return []byte("<KPTMap>" + s), nil
}

// KDJMap is a kind with methods.
type KDJMap map[string]int

func (x *KDJMap) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	if *x == nil {
		*x = KDJMap{}
	}
	(*x)[string(b)]++
	return nil
}

// KDTMap is a kind with methods.
type KDTMap map[string]int

func (x *KDTMap) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	if *x == nil {
		*x = KDTMap{}
	}
	(*x)[string(b)]++
	return nil
}

// KVJStruct is a kind with methods.
type KVJStruct struct{ A, B int }

func (x KVJStruct) MarshalJSON() ([]byte, error) {
	s := fmt.Sprint((struct{ A, B int })(x))
	return []byte(fmt.Sprintf(`[%q]`, "KVJStruct"+hex(s))), nil
}

// KVTStruct is a kind with methods.
type KVTStruct struct{ A, B int }

func (x KVTStruct) MarshalText() ([]byte, error) {
	s := fmt.Sprint((struct{ A, B int })(x))
	return []byte("<KVTStruct>" + s), nil
}

// KPJStruct is a kind with methods.
type KPJStruct struct{ A, B int }

func (p *KPJStruct) MarshalJSON() ([]byte, error) {
	x := *p
	s := fmt.Sprint((struct{ A, B int })(x))
	return []byte(fmt.Sprintf(`[%q]`, "KPJStruct"+hex(s))), nil
}

// KPTStruct is a kind with methods.
type KPTStruct struct{ A, B int }

func (p *KPTStruct) MarshalText() ([]byte, error) {
	x := *p
	s := fmt.Sprint((struct{ A, B int })(x))
	return []byte("<KPTStruct>" + s), nil
}

// KDJStruct is a kind with methods.
type KDJStruct struct{ A, B int }

func (x *KDJStruct) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	x.A++
	x.B = len(b)
	return nil
}

// KDTStruct is a kind with methods.
type KDTStruct struct{ A, B int }

func (x *KDTStruct) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	x.A++
	x.B = len(b)
	return nil
}

// KVJPStruct is a kind with methods.
type KVJPStruct struct{ P *int }

func (x KVJPStruct) MarshalJSON() ([]byte, error) {
	s := showPtr(x.P)
	return []byte(fmt.Sprintf(`[%q]`, "KVJPStruct"+hex(s))), nil
}

// KVTPStruct is a kind with methods.
type KVTPStruct struct{ P *int }

func (x KVTPStruct) MarshalText() ([]byte, error) {
	s := showPtr(x.P)
	return []byte("<KVTPStruct>" + s), nil
}

// KPJPStruct is a kind with methods.
type KPJPStruct struct{ P *int }

func (p *KPJPStruct) MarshalJSON() ([]byte, error) {
	x := *p
	s := showPtr(x.P)
	return []byte(fmt.Sprintf(`[%q]`, "KPJPStruct"+hex(s))), nil
}

// KPTPStruct is a kind with methods.
type KPTPStruct struct{ P *int }

func (p *KPTPStruct) MarshalText() ([]byte, error) {
	x := *p
	s := showPtr(x.P)
	return []byte("<KPTPStruct>" + s), nil
}

// KDJPStruct is a kind with methods.
type KDJPStruct struct{ P *int }

func (x *KDJPStruct) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	n := len(b)
	x.P = &n
	return nil
}

// KDTPStruct is a kind with methods.
type KDTPStruct struct{ P *int }

func (x *KDTPStruct) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	n := len(b)
	x.P = &n
	return nil
}

// KVJPArray is a kind with methods.
type KVJPArray [1]*int

func (x KVJPArray) MarshalJSON() ([]byte, error) {
	s := showPtr(x[0])
	return []byte(fmt.Sprintf(`[%q]`, "KVJPArray"+hex(s))), nil
}

// KVTPArray is a kind with methods.
type KVTPArray [1]*int

func (x KVTPArray) MarshalText() ([]byte, error) {
	s := showPtr(x[0])
	return []byte("<KVTPArray>" + s), nil
}

// KPJPArray is a kind with methods.
type KPJPArray [1]*int

func (p *KPJPArray) MarshalJSON() ([]byte, error) {
	x := *p
	s := showPtr(x[0])
	return []byte(fmt.Sprintf(`[%q]`, "KPJPArray"+hex(s))), nil
}

// KPTPArray is a kind with methods.
type KPTPArray [1]*int

func (p *KPTPArray) MarshalText() ([]byte, error) {
	x := *p
	s := showPtr(x[0])
	return []byte("<KPTPArray>" + s), nil
}

// KDJPArray is a kind with methods.
type KDJPArray [1]*int

func (x *KDJPArray) UnmarshalJSON(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	n := len(b)
	x[0] = &n
	return nil
}

// KDTPArray is a kind with methods.
type KDTPArray [1]*int

func (x *KDTPArray) UnmarshalText(b []byte) error {
	if bad(b) {
		return ErrUser
	}
	n := len(b)
	x[0] = &n
	return nil
}

func showPtr(p *int) string {
	if p == nil {
		return "nil"
	}
	return fmt.Sprint(*p)
}

func bad(b []byte) bool { return len(b) > 2 && b[len(b)-2] == '!' }

func hex(s string) string { return fmt.Sprintf("%x", s) }

// MethDec are types of every kind with methods.
var MethDec = []reflect.Type{
	reflect.TypeOf((*KDJBool)(nil)).Elem(),
	reflect.TypeOf((*KDTBool)(nil)).Elem(),
	reflect.TypeOf((*KDJInt)(nil)).Elem(),
	reflect.TypeOf((*KDTInt)(nil)).Elem(),
	reflect.TypeOf((*KDJInt8)(nil)).Elem(),
	reflect.TypeOf((*KDTInt8)(nil)).Elem(),
	reflect.TypeOf((*KDJInt16)(nil)).Elem(),
	reflect.TypeOf((*KDTInt16)(nil)).Elem(),
	reflect.TypeOf((*KDJInt32)(nil)).Elem(),
	reflect.TypeOf((*KDTInt32)(nil)).Elem(),
	reflect.TypeOf((*KDJInt64)(nil)).Elem(),
	reflect.TypeOf((*KDTInt64)(nil)).Elem(),
	reflect.TypeOf((*KDJUint)(nil)).Elem(),
	reflect.TypeOf((*KDTUint)(nil)).Elem(),
	reflect.TypeOf((*KDJUint8)(nil)).Elem(),
	reflect.TypeOf((*KDTUint8)(nil)).Elem(),
	reflect.TypeOf((*KDJUint16)(nil)).Elem(),
	reflect.TypeOf((*KDTUint16)(nil)).Elem(),
	reflect.TypeOf((*KDJUint32)(nil)).Elem(),
	reflect.TypeOf((*KDTUint32)(nil)).Elem(),
	reflect.TypeOf((*KDJUint64)(nil)).Elem(),
	reflect.TypeOf((*KDTUint64)(nil)).Elem(),
	reflect.TypeOf((*KDJUintptr)(nil)).Elem(),
	reflect.TypeOf((*KDTUintptr)(nil)).Elem(),
	reflect.TypeOf((*KDJFloat32)(nil)).Elem(),
	reflect.TypeOf((*KDTFloat32)(nil)).Elem(),
	reflect.TypeOf((*KDJFloat64)(nil)).Elem(),
	reflect.TypeOf((*KDTFloat64)(nil)).Elem(),
	reflect.TypeOf((*KDJString)(nil)).Elem(),
	reflect.TypeOf((*KDTString)(nil)).Elem(),
	reflect.TypeOf((*KDJSlice)(nil)).Elem(),
	reflect.TypeOf((*KDTSlice)(nil)).Elem(),
	reflect.TypeOf((*KDJBytes)(nil)).Elem(),
	reflect.TypeOf((*KDTBytes)(nil)).Elem(),
	reflect.TypeOf((*KDJArray)(nil)).Elem(),
	reflect.TypeOf((*KDTArray)(nil)).Elem(),
	reflect.TypeOf((*KDJMap)(nil)).Elem(),
	reflect.TypeOf((*KDTMap)(nil)).Elem(),
	reflect.TypeOf((*KDJStruct)(nil)).Elem(),
	reflect.TypeOf((*KDTStruct)(nil)).Elem(),
	reflect.TypeOf((*KDJPStruct)(nil)).Elem(),
	reflect.TypeOf((*KDTPStruct)(nil)).Elem(),
	reflect.TypeOf((*KDJPArray)(nil)).Elem(),
	reflect.TypeOf((*KDTPArray)(nil)).Elem(),
}

// MethEncP are types of every kind with methods.
var MethEncP = []reflect.Type{
	reflect.TypeOf((*KPJBool)(nil)).Elem(),
	reflect.TypeOf((*KPTBool)(nil)).Elem(),
	reflect.TypeOf((*KPJInt)(nil)).Elem(),
	reflect.TypeOf((*KPTInt)(nil)).Elem(),
	reflect.TypeOf((*KPJInt8)(nil)).Elem(),
	reflect.TypeOf((*KPTInt8)(nil)).Elem(),
	reflect.TypeOf((*KPJInt16)(nil)).Elem(),
	reflect.TypeOf((*KPTInt16)(nil)).Elem(),
	reflect.TypeOf((*KPJInt32)(nil)).Elem(),
	reflect.TypeOf((*KPTInt32)(nil)).Elem(),
	reflect.TypeOf((*KPJInt64)(nil)).Elem(),
	reflect.TypeOf((*KPTInt64)(nil)).Elem(),
	reflect.TypeOf((*KPJUint)(nil)).Elem(),
	reflect.TypeOf((*KPTUint)(nil)).Elem(),
	reflect.TypeOf((*KPJUint8)(nil)).Elem(),
	reflect.TypeOf((*KPTUint8)(nil)).Elem(),
	reflect.TypeOf((*KPJUint16)(nil)).Elem(),
	reflect.TypeOf((*KPTUint16)(nil)).Elem(),
	reflect.TypeOf((*KPJUint32)(nil)).Elem(),
	reflect.TypeOf((*KPTUint32)(nil)).Elem(),
	reflect.TypeOf((*KPJUint64)(nil)).Elem(),
	reflect.TypeOf((*KPTUint64)(nil)).Elem(),
	reflect.TypeOf((*KPJUintptr)(nil)).Elem(),
	reflect.TypeOf((*KPTUintptr)(nil)).Elem(),
	reflect.TypeOf((*KPJFloat32)(nil)).Elem(),
	reflect.TypeOf((*KPTFloat32)(nil)).Elem(),
	reflect.TypeOf((*KPJFloat64)(nil)).Elem(),
	reflect.TypeOf((*KPTFloat64)(nil)).Elem(),
	reflect.TypeOf((*KPJString)(nil)).Elem(),
	reflect.TypeOf((*KPTString)(nil)).Elem(),
	reflect.TypeOf((*KPJSlice)(nil)).Elem(),
	reflect.TypeOf((*KPTSlice)(nil)).Elem(),
	reflect.TypeOf((*KPJBytes)(nil)).Elem(),
	reflect.TypeOf((*KPTBytes)(nil)).Elem(),
	reflect.TypeOf((*KPJArray)(nil)).Elem(),
	reflect.TypeOf((*KPTArray)(nil)).Elem(),
	reflect.TypeOf((*KPJMap)(nil)).Elem(),
	reflect.TypeOf((*KPTMap)(nil)).Elem(),
	reflect.TypeOf((*KPJStruct)(nil)).Elem(),
	reflect.TypeOf((*KPTStruct)(nil)).Elem(),
	reflect.TypeOf((*KPJPStruct)(nil)).Elem(),
	reflect.TypeOf((*KPTPStruct)(nil)).Elem(),
	reflect.TypeOf((*KPJPArray)(nil)).Elem(),
	reflect.TypeOf((*KPTPArray)(nil)).Elem(),
}

// MethEncV are types of every kind with methods.
var MethEncV = []reflect.Type{
	reflect.TypeOf((*KVJBool)(nil)).Elem(),
	reflect.TypeOf((*KVTBool)(nil)).Elem(),
	reflect.TypeOf((*KVJInt)(nil)).Elem(),
	reflect.TypeOf((*KVTInt)(nil)).Elem(),
	reflect.TypeOf((*KVJInt8)(nil)).Elem(),
	reflect.TypeOf((*KVTInt8)(nil)).Elem(),
	reflect.TypeOf((*KVJInt16)(nil)).Elem(),
	reflect.TypeOf((*KVTInt16)(nil)).Elem(),
	reflect.TypeOf((*KVJInt32)(nil)).Elem(),
	reflect.TypeOf((*KVTInt32)(nil)).Elem(),
	reflect.TypeOf((*KVJInt64)(nil)).Elem(),
	reflect.TypeOf((*KVTInt64)(nil)).Elem(),
	reflect.TypeOf((*KVJUint)(nil)).Elem(),
	reflect.TypeOf((*KVTUint)(nil)).Elem(),
	reflect.TypeOf((*KVJUint8)(nil)).Elem(),
	reflect.TypeOf((*KVTUint8)(nil)).Elem(),
	reflect.TypeOf((*KVJUint16)(nil)).Elem(),
	reflect.TypeOf((*KVTUint16)(nil)).Elem(),
	reflect.TypeOf((*KVJUint32)(nil)).Elem(),
	reflect.TypeOf((*KVTUint32)(nil)).Elem(),
	reflect.TypeOf((*KVJUint64)(nil)).Elem(),
	reflect.TypeOf((*KVTUint64)(nil)).Elem(),
	reflect.TypeOf((*KVJUintptr)(nil)).Elem(),
	reflect.TypeOf((*KVTUintptr)(nil)).Elem(),
	reflect.TypeOf((*KVJFloat32)(nil)).Elem(),
	reflect.TypeOf((*KVTFloat32)(nil)).Elem(),
	reflect.TypeOf((*KVJFloat64)(nil)).Elem(),
	reflect.TypeOf((*KVTFloat64)(nil)).Elem(),
	reflect.TypeOf((*KVJString)(nil)).Elem(),
	reflect.TypeOf((*KVTString)(nil)).Elem(),
	reflect.TypeOf((*KVJSlice)(nil)).Elem(),
	reflect.TypeOf((*KVTSlice)(nil)).Elem(),
	reflect.TypeOf((*KVJBytes)(nil)).Elem(),
	reflect.TypeOf((*KVTBytes)(nil)).Elem(),
	reflect.TypeOf((*KVJArray)(nil)).Elem(),
	reflect.TypeOf((*KVTArray)(nil)).Elem(),
	reflect.TypeOf((*KVJMap)(nil)).Elem(),
	reflect.TypeOf((*KVTMap)(nil)).Elem(),
	reflect.TypeOf((*KVJStruct)(nil)).Elem(),
	reflect.TypeOf((*KVTStruct)(nil)).Elem(),
	reflect.TypeOf((*KVJPStruct)(nil)).Elem(),
	reflect.TypeOf((*KVTPStruct)(nil)).Elem(),
	reflect.TypeOf((*KVJPArray)(nil)).Elem(),
	reflect.TypeOf((*KVTPArray)(nil)).Elem(),
}
