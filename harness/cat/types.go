// Package cat is a catalogue of static Go types: named kinds, types with
// (un)marshaling methods, embedding, recursion.
package cat

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"strconv"
	"strings"
)

// named kinds
type (
	NBool   bool
	NInt    int
	NInt8   int8
	NInt16  int16
	NInt32  int32
	NInt64  int64
	NUint   uint
	NUint8  uint8
	NUint16 uint16
	NUint32 uint32
	NUint64 uint64
	NUptr   uintptr
	NF32    float32
	NF64    float64
	NStr    string
	NBytes  []byte
	NNBytes []NUint8
	NSlice  []int
	NMap    map[string]int
	NArr    [3]int16
	NIface  interface{}
	NEmpty  struct{}
)

// ErrUser is returned by the methods of the catalogue on demand.
var ErrUser = errors.New("user error")

// ---- json.Marshaler / json.Unmarshaler

// JV has a value receiver MarshalJSON.
type JV struct {
	N int
	S string
}

func (j JV) MarshalJSON() ([]byte, error) {
	if j.S == "ERR" {
		return nil, ErrUser
	}
	return []byte(`{"jv":` + strconv.Itoa(j.N) + `,"l":` + strconv.Itoa(len(j.S)) + `}`), nil
}

func (j *JV) UnmarshalJSON(b []byte) error {
	if bytes.Contains(b, []byte("ERR")) {
		return ErrUser
	}
	j.N++
	j.S = string(b)
	return nil
}

// JP has pointer receivers only.
type JP struct {
	N int
	S string
}

func (j *JP) MarshalJSON() ([]byte, error) {
	if j.S == "ERR" {
		return nil, ErrUser
	}
	return []byte(`["jp",` + strconv.Itoa(j.N) + `,` + strconv.Itoa(len(j.S)) + `]`), nil
}

func (j *JP) UnmarshalJSON(b []byte) error {
	if bytes.Contains(b, []byte("ERR")) {
		return ErrUser
	}
	j.N++
	j.S = string(b)
	return nil
}

// JInt is an integer kind with a value receiver.
type JInt int32

func (j JInt) MarshalJSON() ([]byte, error) { return []byte(`"i` + strconv.Itoa(int(j)) + `"`), nil }

func (j *JInt) UnmarshalJSON(b []byte) error { *j = JInt(len(b)); return nil }

// JStr is a string kind with a value receiver.
type JStr string

func (j JStr) MarshalJSON() ([]byte, error) { return []byte(strconv.Itoa(len(j))), nil }

// JBool is a bool kind with a pointer receiver.
type JBool bool

func (j *JBool) MarshalJSON() ([]byte, error) {
	if *j {
		return []byte(`"yes"`), nil
	}
	return []byte(`"no"`), nil
}

// JMap is a map kind (pointer shaped) with a value receiver.
type JMap map[string]int

func (j JMap) MarshalJSON() ([]byte, error) {
	if j == nil {
		return []byte(`"nilmap"`), nil
	}
	return []byte(`{"len":` + strconv.Itoa(len(j)) + `}`), nil
}

// JSlice is a slice kind with a value receiver.
type JSlice []int

func (j JSlice) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`"s%d"`, len(j))), nil }

// JArr is an array kind with a value receiver.
type JArr [2]int

func (j JArr) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`"a%d"`, j[0]+j[1])), nil }

// JFunc is a func kind (pointer shaped) with a value receiver.
type JFunc func() int

func (j JFunc) MarshalJSON() ([]byte, error) {
	if j == nil {
		return []byte(`null`), nil
	}
	return []byte(strconv.Itoa(j())), nil
}

// JChan is a chan kind (pointer shaped) with a value receiver.
type JChan chan int

func (j JChan) MarshalJSON() ([]byte, error) { return []byte(`"chan"`), nil }

// JWrap is a pointer shaped struct with a value receiver.
type JWrap struct{ P *int }

func (j JWrap) MarshalJSON() ([]byte, error) {
	if j.P == nil {
		return []byte(`"nilp"`), nil
	}
	return []byte(`{"p":` + strconv.Itoa(*j.P) + `}`), nil
}

// ---- text

// TV has a value receiver MarshalText.
type TV struct {
	N int
	S string
}

func (x TV) MarshalText() ([]byte, error) {
	if x.S == "ERR" {
		return nil, ErrUser
	}
	return []byte(fmt.Sprintf("%d<%s>", x.N, x.S)), nil
}

func (x *TV) UnmarshalText(b []byte) error {
	if bytes.Contains(b, []byte("ERR")) {
		return ErrUser
	}
	x.N++
	x.S = string(b)
	return nil
}

// TP has pointer receivers only.
type TP struct {
	N int
	S string
}

func (x *TP) MarshalText() ([]byte, error) {
	if x.S == "ERR" {
		return nil, ErrUser
	}
	return []byte(fmt.Sprintf("%d&%s", x.N, x.S)), nil
}

func (x *TP) UnmarshalText(b []byte) error {
	if bytes.Contains(b, []byte("ERR")) {
		return ErrUser
	}
	x.N++
	x.S = string(b)
	return nil
}

// TInt is an integer kind usable as a map key.
type TInt int16

func (x TInt) MarshalText() ([]byte, error) { return []byte("t" + strconv.Itoa(int(x))), nil }

func (x *TInt) UnmarshalText(b []byte) error {
	i, err := strconv.Atoi(strings.TrimPrefix(string(b), "t"))
	if err != nil {
		return err
	}
	*x = TInt(i)
	return nil
}

// TStr is a string kind with UnmarshalText only.
type TStr string

func (x *TStr) UnmarshalText(b []byte) error { *x = TStr("<" + string(b) + ">"); return nil }

// TSKey is a struct usable as a map key.
type TSKey struct{ A, B uint8 }

func (x TSKey) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("%d/%d", x.A, x.B)), nil }

func (x *TSKey) UnmarshalText(b []byte) error {
	i := bytes.IndexByte(b, '/')
	if i < 0 {
		return errors.New("bad key")
	}
	a, err := strconv.ParseUint(string(b[:i]), 10, 8)
	if err != nil {
		return err
	}
	c, err := strconv.ParseUint(string(b[i+1:]), 10, 8)
	if err != nil {
		return err
	}
	x.A, x.B = uint8(a), uint8(c)
	return nil
}

// TMap is a pointer shaped kind with a value receiver MarshalText.
type TMap map[string]int

func (x TMap) MarshalText() ([]byte, error) { return []byte(fmt.Sprintf("m%d", len(x))), nil }

// TSlice is a slice kind with a value receiver MarshalText.
type TSlice []byte

func (x TSlice) MarshalText() ([]byte, error) { return append([]byte("ts:"), x...), nil }

// JT has both; JSON wins.
type JT struct{ N int }

func (x JT) MarshalJSON() ([]byte, error) { return []byte(strconv.Itoa(x.N)), nil }
func (x JT) MarshalText() ([]byte, error) { return []byte("text"), nil }
func (x *JT) UnmarshalJSON(b []byte) error {
	x.N = len(b)
	return nil
}
func (x *JT) UnmarshalText(b []byte) error { x.N = -len(b); return nil }

// ---- interfaces with methods

// Meth is an interface with a method.
type Meth interface{ M() int }

// MImpl implements Meth by pointer.
type MImpl struct {
	A int
	B string
}

func (m *MImpl) M() int { return m.A }

// MVal implements Meth by value.
type MVal struct{ V int }

func (m MVal) M() int { return m.V }

// JMeth is an interface which embeds json.Marshaler.
type JMeth interface {
	json.Marshaler
	Extra() int
}

// JMImpl implements JMeth.
type JMImpl struct{ V int }

func (m JMImpl) MarshalJSON() ([]byte, error) { return []byte(fmt.Sprintf(`"jm%d"`, m.V)), nil }
func (m JMImpl) Extra() int                   { return m.V }

// ---- structs

// Tree is recursive.
type Tree struct {
	V    int              `json:"v"`
	L    *Tree            `json:"l,omitempty"`
	Kids []*Tree          `json:"kids,omitempty"`
	M    map[string]*Tree `json:"m,omitempty"`
	Any  interface{}      `json:"any,omitempty"`
}

// Node2 and Node3 are mutually recursive.
type Node2 struct {
	X    int8
	Next *Node3
	Arr  []Node3
}

// Node3 see Node2.
type Node3 struct {
	Y    string
	Back map[string]Node2
	P    *Node2
}

// EmbA ... are embedded by other structs.
type EmbA struct {
	A int
	X string
}

// EmbB collides with EmbA on X.
type EmbB struct {
	B bool
	X string
}

// EmbT has tagged fields.
type EmbT struct {
	Q int    `json:"q"`
	X string `json:"X"`
}

// EmbDeep embeds EmbA.
type EmbDeep struct {
	EmbA
	D float64
}

type embLow struct {
	Low  int
	Low2 *string
}

type embLowP struct {
	LowP uint16
	S    []int
}

// Out1 ... Out8 embed in several ways.
type Out1 struct {
	EmbA
	Z int
}

// Out2 has an ambiguous X.
type Out2 struct {
	EmbA
	EmbB
}

// Out3 has a tag winner.
type Out3 struct {
	EmbA
	EmbT
}

// Out4 shadows.
type Out4 struct {
	EmbA
	X int
}

// Out5 embeds pointers.
type Out5 struct {
	*EmbA
	*EmbDeep
	Z int
}

// Out6 embeds an unexported struct.
type Out6 struct {
	embLow
	Z int
}

// Out7 embeds a pointer to an unexported struct.
type Out7 struct {
	*embLowP
	Z int
}

// NewOut7 sets the unexported pointer.
func NewOut7(z int) *Out7 { return &Out7{embLowP: &embLowP{LowP: 9}, Z: z} }

// SetOut7 sets the unexported pointer.
func SetOut7(o *Out7) { o.embLowP = &embLowP{LowP: 3, S: []int{1}} }

// Out8 embeds with a tag, and non struct types.
type Out8 struct {
	EmbA `json:"named"`
	NInt
	*NStr
	NSlice `json:",omitempty"`
}

// Out9 is self embedded.
type Out9 struct {
	*Out9
	W int
}

// Out10 embeds the same type at two depths.
type Out10 struct {
	EmbDeep
	EmbA
}

// Out11 has unusual tags.
type Out11 struct {
	A int     `json:"-"`
	B int     `json:"-,"`
	C int     `json:",omitempty"`
	D int     `json:"d&<>"`
	E int     `json:"é"`
	F int     `json:"a b"`
	G int     `json:"bad\"name"`
	H int     `json:"semi;colon"`
	I string  `json:"str,string"`
	J *int    `json:"j,string,omitempty"`
	K bool    `json:"k,omitempty,string"`
	L float64 `json:"l,string"`
	m int
}

// OneField has one field.
type OneField struct {
	Key string `json:"key"`
}

// OneK folds onto the kelvin sign.
type OneK struct {
	K int `json:"k"`
}

// One1 is pointer shaped with one field.
type One1 struct{ P *int }

// OneMap is pointer shaped.
type OneMap struct{ M map[string]int }

// Fold has fields which only differ in case.
type Fold struct {
	ABC int `json:"abc"`
	Abc int `json:"ABC"`
	AbC int `json:"aBc"`
	S   int `json:"s"`
	K   int `json:"kk"`
	SS  int `json:"ss_k"`
}

// Big has more than ten fields.
type Big struct {
	F01 int
	F02 string
	F03 bool
	F04 float64
	F05 []int
	F06 map[string]int
	F07 *int
	F08 interface{}
	F09 int8
	F10 uint16
	F11 string `json:"kelvin"`
	F12 string `json:"KELVIN"`
	F13 EmbA
	EmbB
}

type (
	lowInt   int
	lowStr   string
	lowSlice []int
	// NPInt ... are named pointers.
	NPInt    *int
	NPStr    *string
	NPStruct *EmbA
	NPBool   *NBool
	// AliasA is EmbA under another name.
	AliasA = EmbA
	// AliasLow is an exported name of an unexported struct.
	AliasLow = embLow
)

// Out12 embeds unexported types that are not structs.
type Out12 struct {
	lowInt
	A int
	*lowStr
	B        string
	lowSlice `json:"slice"`
	C        *int
}

// Out13 has named pointers, which the string option leaves alone.
type Out13 struct {
	P NPInt    `json:"p,string"`
	Q *NInt    `json:"q,string"`
	R NPStr    `json:",string"`
	S NPStruct `json:",omitempty"`
	T **int    `json:",string"`
	U NPBool   `json:"u,string,omitempty"`
	V NPInt
}

// Out14 embeds an interface.
type Out14 struct {
	Meth
	A int
	I interface{ M() int } `json:"i,omitempty"`
}

// Out15 embeds an alias.
type Out15 struct {
	AliasA
	EmbB
	C int
}

// Out16 embeds a type twice.
type Out16 struct {
	AliasA
	EmbA
	B int
}

// Out17 embeds a type twice, and again deeper.
type Out17 struct {
	*AliasA
	*EmbA
	Out1
	X bool
}

// Out18 embeds an alias of an unexported struct.
type Out18 struct {
	AliasLow
	embLowP
	Z int
}

// Out19 has a field and an embedded struct with the same tag.
type Out19 struct {
	EmbT
	EmbA `json:"q"`
	X    int `json:"x"`
}

// Out20 embeds a tagged winner below an untagged field of the same name.
type Out20 struct {
	Out3
	EmbT
	Q int
}
