// Code generated by gencat.py. DO NOT EDIT.

package cat

import (
	"encoding/json"
	"reflect"
)

var _ json.Number

type G000 struct {
	B    interface{}
	NAME json.Number
	X    **int8 `json:"a<b>&" jz:"a<b>&"`
}

type G001 struct {
	AB   *string        `json:",string" jz:",string"`
	URL  map[string]int `json:"$x" jz:"$x"`
	NAME **int8
	*G000
	D json.RawMessage
}

type G002 struct {
	G000
	Kk float32 `json:"n.m" jz:"n.m"`
	Y  string  `json:"," jz:","`
	a  [2]int8
	C  bool
}

type G003 struct {
	Key **int8 `json:"t5" jz:"t5"`
	G002
}

type G004 struct {
	b    string
	G003 `json:"-" jz:"-"`
	C    float64
	Id   []string `json:"t5" jz:"t5"`
	Sk   uint64   `json:"ID" jz:"ID"`
	x    float64
	NAME []byte
}

type G005 struct {
	G003
	F17  bool `json:",string" jz:",string"`
	D    bool
	Y    string
	name float64
	B    [2]int8
	Ab   json.RawMessage
	A    []int
}

type G006 struct {
	Kk uint16 `json:"-," jz:"-,"`
	*G004
	C [2]int8 `json:"$x" jz:"$x"`
	G003
}

type g007 struct {
	Name *int   `json:"-," jz:"-,"`
	NAME uint16 `json:",string" jz:",string"`
	AB   [2]int8
	B    json.Number
	a    float32
	Ab   struct{}
	X    **int8 `json:"url" jz:"url"`
}

type G008 struct {
	G000 `json:",omitempty" jz:",omitempty"`
	G001
}

type G009 struct {
	F10  NInt `json:"-," jz:"-,"`
	Sk   int
	NAME float32
	Ab   int
	Id   NStr
	hid  uint16
	ID   json.Number `json:"-" jz:"-"`
}

type G010 struct {
	A   []int                  `json:"t14" jz:"t14"`
	C   float32                `json:"x" jz:"x"`
	F16 map[string]interface{} `json:"-" jz:"-"`
	G000
	G002
	Value [2]int8
	Ab    *string `xml:"q" json:"-," jz:"-," alt:"z0,omitempty"`
	D     uint16
	ID    map[string]int
	name  float64
}

type G011 struct {
	Sk **int8      `json:"-" jz:"-"`
	X  interface{} `json:"y,omitempty,string" jz:"y,omitempty,string"`
	F1 float32     `json:"x,omitempty" jz:"x,omitempty"`
	*g007
	D    *bool
	Y    []int
	ID   *string
	Name map[string]interface{}
	URL  bool `json:"id" jz:"id"`
	NAME NInt `json:",string" jz:",string"`
}

type G012 struct {
	Name  int8 `json:"n.m" jz:"n.m"`
	Value float64
	NAME  NStr
	*G009
	B []int `json:"t16" jz:"t16"`
}

type G013 struct {
	ID NInt `json:"t11" jz:"t11"`
}

type G014 struct {
	G006
	F23 []string `json:"x" jz:"x"`
	g007
	G009
	X    NInt `json:"ſs" jz:"ſs"`
	B    int64
	NAME map[string]interface{}
	Ab   []string
}

type G015 struct {
	ID  int
	Id  interface{}
	F10 *bool
	B   []byte `json:"$x" jz:"$x"`
	URL json.RawMessage
}

type G016 struct {
	ID bool `xml:"q" json:"url" jz:"url" alt:"z2,omitempty"`
	AB *int
	x  json.Number
	C  *int  `json:"x,omitempty" jz:"x,omitempty"`
	Ab *bool `json:"n.m" jz:"n.m"`
	*G009
}

type G017 struct {
	NAME uint16 `json:"x,omitempty" jz:"x,omitempty"`
	G005 `json:"a" jz:"a"`
	Key  *int
	Ab   float32 `json:"name" jz:"name"`
	G014
}

type G018 struct {
	hid NInt
	G004
	*G006
}

type G019 struct {
	Value json.RawMessage `json:"t14" jz:"t14"`
}

type G020 struct {
	hid int8
	G019
	URL [2]int8 `json:"b" jz:"b"`
	G004
}

type G021 struct {
	A json.Number `json:"t2" jz:"t2"`
	G017
	G002
	*G009
	NAME float64 `alt:"w"`
	URL  []string
	Id   []byte
}

type G022 struct {
	*G003
}

type G023 struct {
	NAME uint16
	*G021
	AB   **int8
	b    [2]int8
	Name int8
	name uint16
	A    float64 `json:",string" jz:",string"`
	ID   int     `json:"n.m" jz:"n.m"`
	D    []int   `json:"id,string" jz:"id,string"`
}

type g024 struct {
	C   []string
	hid json.Number
	F14 json.Number `json:"t18" jz:"t18"`
	*G001
}

type G025 struct {
	Value *int `xml:"q" json:"n.m" jz:"n.m" alt:"z3,omitempty"`
	F17   NStr
	Name  uint16
	NAME  int
	D     **int8 `json:"K" jz:"K"`
	name  bool
	A     int8   `json:"é" jz:"é"`
	AB    **int8 `json:"semi;c" jz:"semi;c"`
}

type g026 struct {
}

type G027 struct {
	Kk    struct{}
	AB    []string
	Value float64 `json:"$x" jz:"$x"`
}

type G028 struct {
	NAME uint64
	X    struct{}
}

type G029 struct {
	b    *string
	Sk   json.Number
	x    *int
	ID   int64
	AB   uint64
	Key  struct{} `json:"t15" jz:"t15"`
	F20  []int
	URL  [2]int8  `alt:"w"`
	Y    []string `json:",omitempty" jz:",omitempty"`
	Name *string  `json:"t11" jz:"t11"`
	F27  []int
}

type G030 struct {
	D   NInt
	URL NStr `json:"key" jz:"key"`
	Ab  []byte
	Y   uint64
	ID  struct{}
}

type G031 struct {
	Y float64
	G020
	X  [2]int8 `json:"y,omitempty,string" jz:"y,omitempty,string"`
	Kk []int
	Sk struct{}
}

type G032 struct {
	G017
	URL int64 `json:"-" jz:"-"`
	*G028
}

type g033 struct {
	ID json.RawMessage
	A  string `json:"bad\\q" jz:"bad\\q"`
	C  int64
	G029
	Kk bool
}

type G034 struct {
	ID   float32 `json:"é" jz:"é"`
	G006 `json:",omitempty" jz:",omitempty"`
}

type G035 struct {
	ID **int8 `xml:"q" json:"," jz:"," alt:"z2,omitempty"`
	G030
	G018
	*g033
	Ab uint64
}

type G036 struct {
	G021
	Value int8
}

type g037 struct {
	NAME [2]int8
	Y    []byte  `json:"y,omitempty,string" jz:"y,omitempty,string"`
	AB   [2]int8 `json:",omitempty" jz:",omitempty"`
	G032
}

type g038 struct {
	Y json.RawMessage
}

type G039 struct {
	Key map[string]int `json:"-" jz:"-"`
	AB  *int
	G008
}

type G040 struct {
	G027
	Value NStr `json:"t13" jz:"t13"`
	*G019
	g037
	URL int64 `json:"$x" jz:"$x"`
	D   *bool `xml:"q" json:"-," jz:"-," alt:"z3,omitempty"`
}

type G041 struct {
	AB  []string
	F8  [2]int8
	Key uint16
	URL json.Number `json:"t10" jz:"t10"`
	D   string      `json:"t4" jz:"t4"`
	Kk  []string    `json:"b" jz:"b"`
	A   [2]int8     `json:"é" jz:"é"`
}

type G042 struct {
	G020
	G008
	Id   json.Number `json:"" jz:""`
	G036 `json:"X" jz:"X"`
	NAME string
}

type G043 struct {
	ID json.Number
	Y  float32 `json:"x,omitempty" jz:"x,omitempty"`
	Ab []string
	*G027
	URL   struct{} `xml:"q" json:"é" jz:"é" alt:"z2,omitempty"`
	F0    **int8   `json:",omitempty" jz:",omitempty"`
	AB    []string `xml:"q" json:"bad\\q" jz:"bad\\q" alt:"z0,omitempty"`
	F24   float64
	Value json.Number
	Kk    int8
}

type g044 struct {
	g026
	Y  []byte `xml:"q" json:"t6" jz:"t6" alt:"z4,omitempty"`
	X  interface{}
	Kk struct{}
	G040
}

type g045 struct {
	A  []string `json:"bad\\q" jz:"bad\\q"`
	Id *bool    `json:"y,omitempty,string" jz:"y,omitempty,string"`
}

type G046 struct {
	B []byte `json:"-" jz:"-"`
}

type G047 struct {
	*G046
	G034 `json:"a" jz:"a"`
	G012
}

type g048 struct {
	*G011 `json:"-" jz:"-"`
}

type G049 struct {
	ID    int8
	A     []int `json:"x,omitempty" jz:"x,omitempty"`
	*G013 `json:"X" jz:"X"`
	D     *string
	Ab    string
}

type G050 struct {
	C  struct{} `alt:"w"`
	Ab [2]int8  `xml:"q" json:"a b" jz:"a b" alt:"z0,omitempty"`
	g048
	G016
}

type G051 struct {
	X   []byte
	Sk  int
	F23 *int        `xml:"q" json:"y,omitempty,string" jz:"y,omitempty,string" alt:"z0,omitempty"`
	AB  []int       `json:"t18" jz:"t18"`
	Ab  []byte      `json:"ID" jz:"ID"`
	Key *int        `alt:"w"`
	D   json.Number `json:"t4" jz:"t4"`
	B   int         `json:",omitempty" jz:",omitempty"`
	C   uint64
}

type g052 struct {
	Key int8 `alt:"w"`
}

type g053 struct {
	*G021
	NAME float64
	Y    json.RawMessage
	F8   []string
	A    **int8 `alt:"w"`
}

type G054 struct {
	ID   interface{}
	Id   map[string]interface{}
	Name *bool `json:"a" jz:"a"`
	Ab   int
	x    uint16
	B    struct{}
}

type G055 struct {
	A   []int  `alt:"w"`
	Key NInt   `json:"t4" jz:"t4"`
	C   []byte `json:"é" jz:"é"`
	G035
}

type G056 struct {
	Y    []byte
	Key  []int
	Name float64 `json:"-" jz:"-"`
	*G040
	*G042
}

type G057 struct {
	Sk   int64 `json:"t2" jz:"t2"`
	URL  *bool
	F7   struct{} `json:"$x" jz:"$x"`
	A    interface{}
	b    *int
	Y    int `xml:"q" json:"y,omitempty,string" jz:"y,omitempty,string" alt:"z4,omitempty"`
	ID   string
	Ab   map[string]int
	Name *int `json:"Name" jz:"Name"`
	X    json.Number
}

type g058 struct {
	Y    int64   `json:"t3" jz:"t3"`
	D    [2]int8 `xml:"q" json:"$x" jz:"$x" alt:"z0,omitempty"`
	ID   NInt    `json:"t1" jz:"t1"`
	Name interface{}
	F18  string `json:"y,omitempty,string" jz:"y,omitempty,string"`
}

type g059 struct {
	G034
	D     **int8 `json:"url" jz:"url"`
	ID    struct{}
	Key   float64        `json:"-," jz:"-,"`
	Ab    map[string]int `json:"t8" jz:"t8"`
	Value map[string]int
	Kk    struct{}
}

type G060 struct {
	name *int
	b    *int
}

type g061 struct {
	Ab   []int
	a    struct{}
	Id   struct{} `json:"url" jz:"url"`
	F1   map[string]int
	Kk   int
	AB   int8
	B    float64  `xml:"q" json:"a<b>&" jz:"a<b>&" alt:"z1,omitempty"`
	X    []string `json:"" jz:""`
	ID   []byte   `json:"t6" jz:"t6"`
	NAME []byte   `xml:"q" json:"a<b>&" jz:"a<b>&" alt:"z3,omitempty"`
}

type G062 struct {
	Ab  []string       `alt:"w"`
	Kk  NInt           `json:"a<b>&" jz:"a<b>&"`
	C   map[string]int `xml:"q" json:"y,omitempty,string" jz:"y,omitempty,string" alt:"z3,omitempty"`
	AB  float32
	B   NStr
	F9  NStr `json:",string" jz:",string"`
	URL int8 `json:",string" jz:",string"`
	*G041
	ID map[string]interface{}
	*G057
}

type g063 struct {
	G055
	G042 `json:",omitempty" jz:",omitempty"`
	C    interface{}
	*g037
	Value int8
}

type g064 struct {
	Y  map[string]int
	Ab **int8 `json:"n.m" jz:"n.m"`
	Sk int    `json:"x" jz:"x"`
	*G051
	X    NInt   `json:"name" jz:"name"`
	NAME uint16 `json:"" jz:""`
	g053
	Value *bool `xml:"q" json:"," jz:"," alt:"z2,omitempty"`
	Key   *string
	ID    string
	Kk    map[string]interface{} `alt:"w"`
}

type g065 struct {
	Id int64 `json:",omitempty" jz:",omitempty"`
	g059
	*G046
	g037
}

type G066 struct {
	NAME int
	*G028
	F13   int8 `xml:"q" json:"t13" jz:"t13" alt:"z3,omitempty"`
	b     *string
	Value bool
	Name  uint64
	Kk    *bool `json:"semi;c" jz:"semi;c"`
	hid   json.Number
	ID    []int `xml:"q" json:"url" jz:"url" alt:"z2,omitempty"`
	AB    *bool `json:"bad\\q" jz:"bad\\q"`
}

type G067 struct {
	Y     map[string]int
	Kk    bool    `xml:"q" json:"id,string" jz:"id,string" alt:"z0,omitempty"`
	Sk    [2]int8 `json:"$x" jz:"$x"`
	name  struct{}
	F0    map[string]int `xml:"q" json:"a<b>&" jz:"a<b>&" alt:"z0,omitempty"`
	NAME  int
	Value []byte
	G035  `json:"-" jz:"-"`
}

type g068 struct {
	Id struct{} `json:"n.m" jz:"n.m"`
	g033
	Kk   struct{} `json:"-," jz:"-,"`
	AB   bool
	name **int8
	NAME string
	D    float32 `json:"é" jz:"é"`
}

type G069 struct {
	Id    bool
	B     struct{}
	Sk    []byte
	C     json.Number `json:"$x" jz:"$x"`
	NAME  NInt        `json:"id" jz:"id"`
	A     json.Number `json:"ID" jz:"ID"`
	Value int8        `json:"key" jz:"key"`
	Name  []int
	X     **int8
	D     uint16 `xml:"q" json:"bad\\q" jz:"bad\\q" alt:"z3,omitempty"`
	Y     int64
	F14   json.Number `json:"$x" jz:"$x"`
}

type G070 struct {
	Sk  NStr
	B   *string
	Key *int `json:"t3" jz:"t3"`
	Y   [2]int8
}

type G071 struct {
	*g044
	b *bool
	*G057
	*G041
}

type g072 struct {
	Ab bool
	G054
	Sk string
}

type g073 struct {
	*g045
	Id json.Number `json:"id" jz:"id"`
	AB NInt
	B  NStr
	X  **int8 `json:"bad\\q" jz:"bad\\q"`
	G036
}

type G074 struct {
	A   json.Number
	Sk  int8 `json:"a<b>&" jz:"a<b>&"`
	URL **int8
	x   int8
	X   int
}

type g075 struct {
	g038
	*g073
	G046
	Ab int8 `json:"x" jz:"x"`
}

type g076 struct {
	B    NStr
	Ab   int
	Sk   string
	NAME *bool
	AB   float64
	URL  [2]int8
	D    json.RawMessage
	Id   bool
	Y    []string `json:"a" jz:"a"`
}

type G077 struct {
	x     int
	Value int
	C     NStr
	Kk    NStr        `json:"t17" jz:"t17"`
	NAME  struct{}    `json:"a b" jz:"a b"`
	Y     *string     `json:"t6" jz:"t6"`
	AB    float64     `json:"t4" jz:"t4"`
	URL   interface{} `json:"t3" jz:"t3"`
	B     **int8
	ID    map[string]int
	D     **int8 `json:"t0" jz:"t0"`
	Name  int
	Id    []string `json:"t5" jz:"t5"`
}

type G078 struct {
	B    int8 `json:"," jz:","`
	ID   **int8
	Name string `json:"t12" jz:"t12"`
}

type G079 struct {
	D string  `json:"b" jz:"b"`
	B float32 `json:"key" jz:"key"`
}

type G080 struct {
	Id    int8
	Name  *bool
	D     NInt `json:"t10" jz:"t10"`
	Value int
	Sk    int8 `xml:"q" json:"semi;c" jz:"semi;c" alt:"z4,omitempty"`
	NAME  uint16
	Ab    []int
	name  float32
	C     *string
	ID    json.Number `json:"x" jz:"x"`
	X     float32
	a     *bool
}

type g081 struct {
	*G050
	*g063
}

type g082 struct {
	Sk json.Number `json:"t15" jz:"t15"`
	C  interface{}
	AB float64 `xml:"q" json:",omitempty" jz:",omitempty" alt:"z3,omitempty"`
}

type G083 struct {
	Name int
}

type G084 struct {
	F28  []byte                 `json:"$x" jz:"$x"`
	X    map[string]interface{} `json:"" jz:""`
	F13  interface{}
	x    int
	NAME []byte `json:"t11" jz:"t11"`
	URL  *int
}

type G085 struct {
	D struct{} `json:"bad\\q" jz:"bad\\q"`
	g061
}

type G086 struct {
	AB   NInt
	NAME []int
	hid  float64
	g052
	Id uint64 `xml:"q" json:",omitempty" jz:",omitempty" alt:"z3,omitempty"`
	Sk *bool
	Y  NInt
	C  *string `json:"-" jz:"-"`
	A  uint16
	F6 map[string]interface{}
}

type G087 struct {
	*G074
	Id []int `json:"x,omitempty" jz:"x,omitempty"`
	Sk interface{}
	G084
	*G069
}

type g088 struct {
	D   *string
	a   *string
	Key string      `json:"-" jz:"-"`
	Sk  interface{} `json:"é" jz:"é"`
	C   json.RawMessage
}

type G089 struct {
	AB   bool   `json:"id" jz:"id"`
	Id   string `json:"name" jz:"name"`
	x    *int
	A    *string
	Y    float32 `xml:"q" json:"-" jz:"-" alt:"z2,omitempty"`
	G083 `json:"a" jz:"a"`
	Sk   int64
	ID   struct{} `json:"bad\\q" jz:"bad\\q"`
	NAME float64  `xml:"q" json:"bad\\q" jz:"bad\\q" alt:"z2,omitempty"`
	C    float32
	B    map[string]int `json:"id" jz:"id"`
}

type G090 struct {
	Y     float32 `json:"t18" jz:"t18"`
	*G079 `json:"-" jz:"-"`
}

type g091 struct {
	D    []byte `json:"é" jz:"é"`
	Name map[string]int
}

type G092 struct {
	Kk    *bool `xml:"q" json:"$x" jz:"$x" alt:"z1,omitempty"`
	Value *int  `json:"t15" jz:"t15"`
	C     int8  `json:"K" jz:"K"`
	URL   []byte
}

type G093 struct {
	Ab *bool
}

type G094 struct {
	URL map[string]interface{} `json:"t2" jz:"t2"`
	g072
	AB  json.Number
	ID  int64
	hid uint64
	C   [2]int8
	Key []byte `json:"t10" jz:"t10"`
	*G071
}

type G095 struct {
	ID  float64
	Key []int
	F17 [2]int8 `json:"b" jz:"b"`
}

type g096 struct {
	X     uint16
	ID    []byte `xml:"q" json:"t5" jz:"t5" alt:"z4,omitempty"`
	Kk    int
	Y     NStr     `xml:"q" json:"n.m" jz:"n.m" alt:"z4,omitempty"`
	B     []string `json:"x,omitempty" jz:"x,omitempty"`
	C     string   `json:"bad\\q" jz:"bad\\q"`
	Value []string `json:",omitempty" jz:",omitempty"`
	Id    float64
	Name  *bool `json:"id" jz:"id"`
	g063
	NAME interface{} `json:"é" jz:"é"`
}

type g097 struct {
	G062
	AB NStr  `json:"é" jz:"é"`
	A  *bool `json:"n.m" jz:"n.m"`
	*G077
}

type g098 struct {
	Kk json.RawMessage
	Sk uint64 `json:"ſs" jz:"ſs"`
	*G093
	AB map[string]interface{} `xml:"q" json:"name" jz:"name" alt:"z2,omitempty"`
	A  uint64                 `json:"t4" jz:"t4"`
	G085
	g063
	D **int8
	x json.Number
}

type G099 struct {
	*G074
	Id *int
	Kk map[string]interface{} `json:"semi;c" jz:"semi;c"`
	*g098
	Ab struct{}
	D  int64
	G060
	C  [2]int8 `json:"t3" jz:"t3"`
	A  NInt
	Sk struct{}
}

type g100 struct {
	G087 `json:"X" jz:"X"`
	ID   []byte `json:"x,omitempty" jz:"x,omitempty"`
	*g072
	G079
	F6    []int   `json:"ſs" jz:"ſs"`
	NAME  float32 `xml:"q" json:"t14" jz:"t14" alt:"z0,omitempty"`
	Kk    json.RawMessage
	Value *bool   `json:"Name" jz:"Name"`
	AB    float64 `json:"t12" jz:"t12"`
}

type G101 struct {
	URL   bool
	Name  *bool `json:"-," jz:"-,"`
	A     int8  `json:"K" jz:"K"`
	D     interface{}
	Value interface{} `json:"a b" jz:"a b"`
	ID    string
	B     int64 `json:"t11" jz:"t11"`
	a     []int
	Key   json.RawMessage `json:"t7" jz:"t7"`
	G074
}

type g102 struct {
	g097
	*g072
	ID map[string]int
	*g082
	Value int  `json:"bad\\q" jz:"bad\\q"`
	Id    NStr `json:"id,string" jz:"id,string"`
	C     uint64
}

type g103 struct {
	hid int64
	Ab  **int8
	G083
}

type g104 struct {
	Value []byte
	Kk    bool `json:"t0" jz:"t0"`
	A     NStr `json:"K" jz:"K"`
	Id    int
	URL   json.RawMessage
}

type g105 struct {
	G093
	Ab   map[string]int `json:"Name" jz:"Name"`
	ID   json.Number
	G079 `json:"a" jz:"a"`
	name uint64
}

type g106 struct {
	g088
	AB  float32                `json:"a b" jz:"a b"`
	URL []byte                 `json:"t0" jz:"t0"`
	Y   map[string]int         `json:"id" jz:"id"`
	Kk  map[string]interface{} `json:"semi;c" jz:"semi;c"`
	Key []byte                 `json:"a" jz:"a"`
}

type G107 struct {
	Ab float64 `json:"url" jz:"url"`
	g075
	G084
	X NInt
}

type g108 struct {
	ID map[string]interface{} `json:"url" jz:"url"`
}

type g109 struct {
	ID   json.RawMessage
	Id   string `json:"b" jz:"b"`
	NAME json.Number
	g091
	Y map[string]int `json:"," jz:","`
	B float64        `json:"t14" jz:"t14"`
}

type G110 struct {
	Kk   struct{} `json:"bad\\q" jz:"bad\\q"`
	NAME int64    `json:"x,omitempty" jz:"x,omitempty"`
	URL  map[string]int
	D    *bool
	G090 `json:"X" jz:"X"`
	X    NInt `alt:"w"`
}

type g111 struct {
	Key []byte
	Sk  *int `json:"a" jz:"a"`
	G093
	hid string
	F0  struct{}
	a   struct{}
	*g102
}

type G112 struct {
	hid bool
	g098
	Name int8
}

type G113 struct {
	NAME *bool `alt:"w"`
	g111
	Id uint64
	Sk struct{} `json:",string" jz:",string"`
	G095
	*g081
}

type G114 struct {
	Value bool `json:"key" jz:"key"`
	B     [2]int8
	Ab    NStr `json:"y,omitempty,string" jz:"y,omitempty,string"`
	Sk    NStr
	A     *string `json:"-," jz:"-,"`
}

type G115 struct {
	F24 int  `xml:"q" json:"a b" jz:"a b" alt:"z0,omitempty"`
	X   *int `json:",omitempty" jz:",omitempty"`
	F23 int64
	C   *string
	g109
	G110
	name uint16
	Kk   *string
	ID   int64 `json:"t13" jz:"t13"`
	Y    *bool
	Ab   *bool `json:",omitempty" jz:",omitempty"`
	G094
	a    []string
	AB   NStr `json:",string" jz:",string"`
	NAME json.RawMessage
}

type G116 struct {
	Ab int `alt:"w"`
	*g091
	*g102
	G086
}

type g117 struct {
	g091
	Sk  []string `json:"é" jz:"é"`
	URL *int     `json:"," jz:","`
}

type g118 struct {
	A   string `json:"t10" jz:"t10"`
	URL uint16 `json:",omitempty" jz:",omitempty"`
	Ab  *bool  `json:",string" jz:",string"`
	g100
}

type g119 struct {
	*g106
	*G090
	G092
	Ab *bool
}

type G120 struct {
	b     struct{}
	Name  uint64 `alt:"w"`
	Value interface{}
	hid   json.Number
	X     float32
	Ab    NStr
	D     *bool `json:"ſs" jz:"ſs"`
	Y     bool  `json:"bad\\q" jz:"bad\\q"`
	C     []int `json:"key" jz:"key"`
	Kk    NInt  `xml:"q" json:"$x" jz:"$x" alt:"z2,omitempty"`
	NAME  int64
	B     uint16
	Id    uint16
}

type g121 struct {
	Name *string `json:"url" jz:"url"`
	g111
	Y *bool
	G083
}

type G122 struct {
	ID *int
	Y  uint64
	Ab map[string]interface{} `json:"t10" jz:"t10"`
	g121
	Kk    json.RawMessage
	Value bool
}

type g123 struct {
	g117
	Y   float32 `json:"ID" jz:"ID"`
	Key map[string]int
	g103
}

type g124 struct {
	*G113
	B json.Number
}

type G125 struct {
	Id **int8 `json:"ſs" jz:"ſs"`
}

type G126 struct {
	AB map[string]interface{}
	Id json.Number
}

type g127 struct {
	D map[string]int `xml:"q" json:"," jz:"," alt:"z0,omitempty"`
	g119
}

type g128 struct {
	Sk    NInt
	D     [2]int8
	A     NInt                   `json:"Name" jz:"Name"`
	F3    map[string]interface{} `json:"y,omitempty,string" jz:"y,omitempty,string"`
	Name  []string
	Y     *bool `xml:"q" json:"é" jz:"é" alt:"z2,omitempty"`
	b     interface{}
	ID    uint64 `json:"t11" jz:"t11"`
	AB    bool   `json:"a<b>&" jz:"a<b>&"`
	Value struct{}
	URL   map[string]interface{}
	g108
}

type G129 struct {
	A   int64
	F14 *int `json:"x" jz:"x"`
	URL int
	Key *string                `json:"," jz:","`
	C   map[string]interface{} `json:"name" jz:"name"`
	Sk  json.Number            `json:",omitempty" jz:",omitempty"`
	g091
	b     **int8
	Ab    map[string]int `json:"é" jz:"é"`
	Value *bool
	Y     uint16
	Id    *int `json:"$x" jz:"$x"`
	Name  map[string]int
}

type G130 struct {
	F10 map[string]interface{}
	ID  NInt
}

type G131 struct {
	F3   []byte
	Sk   int
	AB   float64
	Ab   **int8
	B    *int
	A    float32 `json:"Name" jz:"Name"`
	a    [2]int8
	URL  float64
	Name int8
	C    []byte
}

type G132 struct {
	F17  float32 `xml:"q" json:"id,string" jz:"id,string" alt:"z4,omitempty"`
	name NInt
	G120
	B    []string
	C    *string
	X    uint16
	Id   int64
	Name float64
}

type G133 struct {
	A *bool
	*g106
}

type g134 struct {
	Ab   []int `json:"K" jz:"K"`
	name float32
	Name string `json:"t1" jz:"t1"`
	*g098
	ID json.RawMessage `json:"y,omitempty,string" jz:"y,omitempty,string"`
	G133
	Id  uint64 `json:"url" jz:"url"`
	Key map[string]interface{}
	A   float32 `json:"ID" jz:"ID"`
}

type g135 struct {
	ID   uint16 `xml:"q" json:"bad\\q" jz:"bad\\q" alt:"z3,omitempty"`
	x    NStr
	Key  int8 `json:"é" jz:"é"`
	name map[string]interface{}
	Y    **int8 `json:"bad\\q" jz:"bad\\q"`
	G129
	D     string `json:"key" jz:"key"`
	URL   uint16
	AB    *bool
	C     *int `alt:"w"`
	Value bool
	A     bool `json:"-" jz:"-"`
	Name  []string
}

type g136 struct {
	Ab   uint64
	D    map[string]interface{}
	F5   map[string]interface{} `json:"ID" jz:"ID"`
	a    **int8
	name interface{}
	g106
	B struct{}
}

type G137 struct {
	NAME  string
	C     struct{}
	Id    string `json:"url" jz:"url"`
	Ab    int64
	URL   string          `alt:"w"`
	Name  json.RawMessage `json:"t0" jz:"t0"`
	D     int64           `json:"n.m" jz:"n.m"`
	Kk    json.Number
	Sk    [2]int8        `xml:"q" json:"-," jz:"-," alt:"z3,omitempty"`
	Value map[string]int `json:"name" jz:"name"`
}

type G138 struct {
	B  int8 `xml:"q" json:"" jz:"" alt:"z1,omitempty"`
	Id []string
	g108
}

type g139 struct {
	A  *string
	Id NInt `alt:"w"`
	Sk []int
	X  []byte
	*g104
	Ab  interface{} `json:"" jz:""`
	F25 NInt        `json:"ſs" jz:"ſs"`
	Kk  NInt
	F23 []string
	G112
	hid   float32
	Value map[string]int `xml:"q" json:",omitempty" jz:",omitempty" alt:"z2,omitempty"`
	G129
}

type G140 struct {
	Ab   []string        `json:"n.m" jz:"n.m"`
	D    NInt            `alt:"w"`
	ID   json.RawMessage `json:"n.m" jz:"n.m"`
	X    *string
	Name interface{} `json:"t1" jz:"t1"`
	Key  map[string]interface{}
	B    []string `json:"-" jz:"-"`
	g117
	A uint16
	C int `json:"url" jz:"url"`
}

type G141 struct {
	F8    []string `json:"semi;c" jz:"semi;c"`
	name  string
	Key   *bool `json:"semi;c" jz:"semi;c"`
	Value json.RawMessage
	A     int8 `json:",omitempty" jz:",omitempty"`
	b     string
	C     *string `json:",omitempty" jz:",omitempty"`
	NAME  [2]int8 `json:",string" jz:",string"`
	ID    [2]int8
	B     uint64
	hid   int64
	URL   *int
	Sk    uint16
}

type G142 struct {
	hid  map[string]int
	D    *int `json:"y,omitempty,string" jz:"y,omitempty,string"`
	X    *int
	ID   []byte
	name json.Number
	NAME string `json:"t1" jz:"t1"`
	Id   uint64 `json:"t4" jz:"t4"`
}

type g143 struct {
	ID  *string
	Key *bool `xml:"q" json:"t4" jz:"t4" alt:"z2,omitempty"`
}

type G144 struct {
	x   json.Number
	URL []string `json:"t5" jz:"t5"`
	g106
	Name []int
	G125
	g117
	B   int `json:"t7" jz:"t7"`
	hid float32
}

type G145 struct {
	C   []byte
	hid [2]int8
	g139
	g143
	Ab []byte `json:"t8" jz:"t8"`
	Kk []string
	*g121
	a  NInt
	ID map[string]int `xml:"q" json:"key" jz:"key" alt:"z1,omitempty"`
	B  *bool          `json:"a" jz:"a"`
}

type G146 struct {
	NAME []int   `json:"x" jz:"x"`
	A    *string `json:"a" jz:"a"`
}

type G147 struct {
	Y    int8
	G130 `json:"-" jz:"-"`
	D    string
	X    map[string]int
	G125
}

type G148 struct {
	B     []int `json:"t4" jz:"t4"`
	x     bool
	G129  `json:"a" jz:"a"`
	Value json.RawMessage
	URL   json.RawMessage
	name  *bool
	NAME  float64 `xml:"q" json:"t3" jz:"t3" alt:"z0,omitempty"`
	Sk    *string
	D     NInt
	Y     struct{}
	AB    **int8
}

type g149 struct {
	D    float64 `json:"bad\\q" jz:"bad\\q"`
	b    []string
	Name *string
	A    []byte
	C    **int8 `json:"a<b>&" jz:"a<b>&"`
	*G110
	Value *string `json:",string" jz:",string"`
	X     int64   `json:"bad\\q" jz:"bad\\q"`
}

type G150 struct {
	Key bool `json:"a b" jz:"a b"`
	G142
	Sk uint64 `xml:"q" json:"t18" jz:"t18" alt:"z0,omitempty"`
	X  uint64
	Id uint64 `json:"id" jz:"id"`
}

type G151 struct {
	ID  uint64
	F17 *bool `json:"t10" jz:"t10"`
	G131
	Key  []byte
	NAME bool        `json:",string" jz:",string"`
	URL  json.Number `json:"-" jz:"-"`
	B    []string    `json:"ſs" jz:"ſs"`
	name float32
	b    map[string]int
	Name interface{} `xml:"q" json:"-" jz:"-" alt:"z4,omitempty"`
	X    []int       `json:"Name" jz:"Name"`
	D    NInt        `json:"key" jz:"key"`
	*G122
	A int
}

type G152 struct {
	g128
	name  [2]int8
	A     json.Number
	D     int64
	Kk    map[string]int `json:",string" jz:",string"`
	Sk    string         `json:"key" jz:"key"`
	Value int64          `json:",omitempty" jz:",omitempty"`
	B     map[string]int `json:"x,omitempty" jz:"x,omitempty"`
	C     NInt
	Ab    []string
	Id    bool `alt:"w"`
}

type G153 struct {
	Value []int
	AB    bool `json:"" jz:""`
}

type G154 struct {
	AB   bool     `xml:"q" json:"Name" jz:"Name" alt:"z3,omitempty"`
	Y    int      `json:"a<b>&" jz:"a<b>&"`
	Name []string `json:"semi;c" jz:"semi;c"`
	G129
	Ab bool
	*g149
	D     uint64 `alt:"w"`
	Value int64
	*G147
}

type g155 struct {
	Id NInt
	D  json.Number
	g128
	*G145 `json:"emb" jz:"emb"`
	Name  NInt
	F9    float32
	a     json.Number
	Sk    int8
	g127
}

type G156 struct {
	ID int8
	G145
	B []byte
	G150
	X    [2]int8 `xml:"q" json:"b" jz:"b" alt:"z3,omitempty"`
	a    json.Number
	AB   map[string]int
	D    struct{}
	Id   *bool
	F22  *string
	F14  uint16 `json:"Name" jz:"Name"`
	NAME uint16
	g118
}

type G157 struct {
	Sk map[string]int `alt:"w"`
}

type G158 struct {
	Id    uint64
	Value *bool
	ID    int `json:"K" jz:"K"`
	g123
}

type G159 struct {
	*G130
	F22   int8 `json:"a" jz:"a"`
	Value map[string]interface{}
	ID    []string `alt:"w"`
	D     NStr     `json:"-" jz:"-"`
	C     uint64   `json:"t1" jz:"t1"`
	*G133
	b string
}

type g160 struct {
	*G130
	Ab  uint16 `json:"K" jz:"K"`
	Key int
	*G158
}

type G161 struct {
	URL uint64 `json:",string" jz:",string"`
}

type g162 struct {
	URL json.RawMessage
	*G140
	NAME int64 `alt:"w"`
	Y    map[string]interface{}
	g124
}

type G163 struct {
	*G152
	D   NInt           `json:"t4" jz:"t4"`
	URL map[string]int `json:"id" jz:"id"`
	hid *string
}

type G164 struct {
	G146
	Y    NInt
	X    bool
	ID   map[string]interface{} `json:",omitempty" jz:",omitempty"`
	B    []string               `json:",string" jz:",string"`
	Id   []byte                 `json:"-" jz:"-"`
	Sk   []int
	F18  uint16  `json:"-," jz:"-,"`
	NAME float32 `json:"n.m" jz:"n.m"`
	C    NStr    `json:",string" jz:",string"`
	AB   int64   `json:"a b" jz:"a b"`
}

type G165 struct {
	Value **int8 `json:"t0" jz:"t0"`
	NAME  NInt   `json:"ſs" jz:"ſs"`
	*G129
	G146
	Sk map[string]int `json:"a" jz:"a"`
}

type G166 struct {
	*G165
	G129 `json:"X" jz:"X"`
}

type G167 struct {
	*G138
	URL []string `xml:"q" json:"id" jz:"id" alt:"z1,omitempty"`
	G130
}

type g168 struct {
	A     *string
	F18   json.Number `json:"t11" jz:"t11"`
	name  uint64
	Kk    string `json:"t13" jz:"t13"`
	Value struct{}
	G159  `json:"emb" jz:"emb"`
	G156  `json:"-" jz:"-"`
	Sk    *bool
	F7    map[string]interface{} `json:"a b" jz:"a b"`
	G158
	F22 uint16
	D   uint16      `json:"ſs" jz:"ſs"`
	F29 []string    `json:",omitempty" jz:",omitempty"`
	Ab  interface{} `json:"t18" jz:"t18"`
	X   *int        `xml:"q" json:"t1" jz:"t1" alt:"z1,omitempty"`
}

type G169 struct {
	g168
	Sk float32
	G164
}

type g170 struct {
	Id   **int8 `xml:"q" json:"," jz:"," alt:"z1,omitempty"`
	NAME []string
}

type g171 struct {
	Key json.Number
	G141
	Name  []string
	Value [2]int8 `json:"bad\\q" jz:"bad\\q"`
	NAME  float32
	B     json.RawMessage `json:",string" jz:",string"`
	URL   int8            `json:"," jz:","`
	g155
}

type g172 struct {
	x     json.RawMessage
	C     *int
	*G148 `json:"-" jz:"-"`
	X     int64
}

type G173 struct {
	F23  **int8
	B    interface{}
	NAME int8    `json:"" jz:""`
	Name [2]int8 `xml:"q" json:"t4" jz:"t4" alt:"z1,omitempty"`
	Kk   string
}

type G174 struct {
	F15   NStr        `xml:"q" json:"," jz:"," alt:"z0,omitempty"`
	A     interface{} `xml:"q" json:"t13" jz:"t13" alt:"z0,omitempty"`
	AB    **int8      `json:"," jz:","`
	Value *string     `json:"-," jz:"-,"`
	F7    NStr
	g143
	Sk   struct{}       `xml:"q" json:"t12" jz:"t12" alt:"z4,omitempty"`
	Name map[string]int `xml:"q" json:"name" jz:"name" alt:"z3,omitempty"`
	D    *string
	G140 `json:"X" jz:"X"`
}

type G175 struct {
	G148
	Key []string
	b   string
	Id  bool `alt:"w"`
}

type g176 struct {
	G145
	Y []string
	*g143
	*G148 `json:",omitempty" jz:",omitempty"`
	a     int
	NAME  *bool
	Id    int `json:"é" jz:"é"`
	Sk    **int8
}

type g177 struct {
	F9   map[string]int
	Name []string `json:"t2" jz:"t2"`
	g155
	B  *string
	Sk []string `xml:"q" json:"a<b>&" jz:"a<b>&" alt:"z2,omitempty"`
	Ab []byte   `json:"t2" jz:"t2"`
}

type g178 struct {
	Y     *int
	Ab    []string `alt:"w"`
	Sk    [2]int8  `json:"id,string" jz:"id,string"`
	Key   struct{}
	URL   []string `json:"-," jz:"-,"`
	Value uint16   `json:"-" jz:"-"`
	hid   interface{}
}

type g179 struct {
	Key float32
	G165
	X     NStr `json:",string" jz:",string"`
	F18   json.RawMessage
	Value float64
	g177
	Sk uint64 `xml:"q" json:"url" jz:"url" alt:"z3,omitempty"`
	D  NStr   `json:"ſs" jz:"ſs"`
}

type G180 struct {
	*G152
	AB []string
}

type g181 struct {
	Y    int8
	ID   json.Number `json:"x,omitempty" jz:"x,omitempty"`
	NAME []string
	Sk   *bool
	Name interface{}
}

type g182 struct {
	A    NInt
	C    map[string]interface{}
	Kk   *int
	Key  float64
	Sk   []byte
	hid  NInt
	ID   string
	NAME []int
}

type G183 struct {
	F9   json.RawMessage
	X    uint64 `json:"a b" jz:"a b"`
	C    uint16 `json:"" jz:""`
	x    interface{}
	Y    int8 `json:"y,omitempty,string" jz:"y,omitempty,string"`
	URL  NInt `json:"a b" jz:"a b"`
	hid  uint16
	NAME float32
	Sk   *int `json:"ſs" jz:"ſs"`
}

type G184 struct {
	b  []byte
	a  json.Number
	Sk struct{} `json:"t1" jz:"t1"`
	G183
	*g170
}

type G185 struct {
	g155
}

type G186 struct {
	AB float64
	*g170
	Value json.Number
	B     bool        `json:"-" jz:"-"`
	Sk    interface{} `json:"a" jz:"a"`
	Ab    int8
	ID    json.RawMessage `json:"$x" jz:"$x"`
	Id    json.RawMessage `xml:"q" json:"a" jz:"a" alt:"z1,omitempty"`
	D     []string
	URL   int `json:"-," jz:"-,"`
	F6    map[string]int
	Kk    *string `json:"$x" jz:"$x"`
	X     NStr    `json:"t19" jz:"t19"`
}

type g187 struct {
	G174
	Kk    NStr
	URL   json.RawMessage
	Value []byte
	AB    json.Number
	Key   []string
	name  interface{}
	ID    []string
	Id    []byte  `json:"x" jz:"x"`
	C     float32 `json:"y,omitempty,string" jz:"y,omitempty,string"`
}

type G188 struct {
	AB string
	G185
	C *string
}

type g189 struct {
	Name  int8
	Value []int
	G151
	B []string
}

type G190 struct {
	G153
	C  **int8 `json:"t6" jz:"t6"`
	Sk uint64
}

type G191 struct {
	Key struct{}
	ID  []int
	*g160
	G169
	g176
	Name string `json:"id,string" jz:"id,string"`
	b    uint16
}

type G192 struct {
	D bool `json:"-," jz:"-,"`
	G153
}

type g193 struct {
	A    struct{} `json:"a<b>&" jz:"a<b>&"`
	Y    []string `json:"" jz:""`
	NAME []byte
	Key  *bool `json:"t0" jz:"t0"`
	g160
	Kk  []byte `json:"bad\\q" jz:"bad\\q"`
	B   []int  `json:"t11" jz:"t11"`
	F10 float64
	Sk  [2]int8 `json:"t15" jz:"t15"`
	ID  bool
}

type G194 struct {
	Ab json.RawMessage `json:"" jz:""`
	g181
	Key map[string]int `json:"x,omitempty" jz:"x,omitempty"`
	g172
	Kk  interface{}
	Y   int
	A   []int
	URL json.Number
	B   json.RawMessage `json:"K" jz:"K"`
	AB  json.RawMessage `json:"K" jz:"K"`
	C   float64
	*G166
	Sk string `json:"K" jz:"K"`
}

type G195 struct {
	Value **int8
	F29   NStr   `json:",string" jz:",string"`
	ID    uint16 `json:"a" jz:"a"`
	F19   []int  `json:"t15" jz:"t15"`
	B     []byte `xml:"q" json:"" jz:"" alt:"z2,omitempty"`
	F13   string
	Kk    [2]int8 `json:"a" jz:"a"`
	x     map[string]interface{}
	Sk    int64
}

type G196 struct {
	A  float64
	Id [2]int8
	g193
}

type g197 struct {
	g171
}

type G198 struct {
	NAME  []int
	ID    map[string]interface{} `json:"Name" jz:"Name"`
	Value []int                  `json:"t10" jz:"t10"`
	*G158 `json:"-" jz:"-"`
}

type G199 struct {
	URL *int `json:"a b" jz:"a b"`
}

type G200 struct {
	D    map[string]interface{} `xml:"q" json:"key" jz:"key" alt:"z0,omitempty"`
	Ab   json.Number
	NAME interface{}
	Y    bool
	URL  [2]int8 `json:"" jz:""`
	X    *int    `xml:"q" json:"a b" jz:"a b" alt:"z2,omitempty"`
	Kk   *int    `json:",string" jz:",string"`
	a    json.Number
}

type G201 struct {
	D   int8
	URL interface{}
	B   bool
}

type g202 struct {
	Y   struct{} `json:"t13" jz:"t13"`
	URL []string
	hid NStr
	G180
	Value []string
	F10   int8
	g162
	B    float32 `json:",omitempty" jz:",omitempty"`
	name int
	a    interface{}
	*G194
	Id NStr `xml:"q" json:",string" jz:",string" alt:"z2,omitempty"`
}

type G203 struct {
	NAME float64 `json:"-" jz:"-"`
	*G173
	g197
	Key   bool `json:"ID" jz:"ID"`
	C     NInt `alt:"w"`
	Value [2]int8
}

type g204 struct {
	g187
	Key uint16                 `json:"id,string" jz:"id,string"`
	Y   map[string]interface{} `json:"" jz:""`
}

type G205 struct {
	D bool `json:"y,omitempty,string" jz:"y,omitempty,string"`
	*g170
	Ab [2]int8 `json:"t8" jz:"t8"`
	Id bool
	g197
	*g202
}

type g206 struct {
	Sk   *string         `xml:"q" json:"ID" jz:"ID" alt:"z3,omitempty"`
	Name json.RawMessage `json:"-," jz:"-,"`
	B    int64           `json:"bad\\q" jz:"bad\\q"`
	Ab   uint16
}

type G207 struct {
}

type G208 struct {
	AB int64
	Sk string `json:"t12" jz:"t12"`
	g176
	G180
	B []byte
	*g177
	URL map[string]int `json:"n.m" jz:"n.m"`
}

type g209 struct {
	g204
	*G203
	Id string
}

type g210 struct {
	Ab [2]int8        `json:"K" jz:"K"`
	Id map[string]int `json:"," jz:","`
	*g187
	D [2]int8
}

type G211 struct {
	AB NStr `alt:"w"`
	G199
	g187
	Id int64
	Sk [2]int8 `alt:"w"`
}

type g212 struct {
	NAME json.RawMessage `json:"a<b>&" jz:"a<b>&"`
	Key  []string
	*G185
	B []string `json:"t13" jz:"t13"`
}

type g213 struct {
	NAME  int8 `json:"b" jz:"b"`
	Value int  `json:"Name" jz:"Name"`
	*G173
	G186
}

type G214 struct {
	Name struct{}
	AB   **int8
	F20  []int
	ID   struct{}
	C    struct{}
	URL  interface{}
	Id   float32 `json:"x,omitempty" jz:"x,omitempty"`
	B    uint16
	A    *string `json:"a" jz:"a"`
	Key  *string
	b    float64
	g209
	Y  []byte `alt:"w"`
	Ab string `json:"b" jz:"b"`
}

type G215 struct {
	a  []byte
	F6 [2]int8 `alt:"w"`
	X  uint64
	Ab []byte
	B  map[string]int
	Y  string `xml:"q" json:"b" jz:"b" alt:"z4,omitempty"`
	ID float64
	Sk interface{}
	C  bool `json:"" jz:""`
	g182
}

type G216 struct {
	x  uint64
	F4 int8 `json:"$x" jz:"$x"`
	G198
	hid float32
	X   uint16 `json:"y,omitempty,string" jz:"y,omitempty,string"`
}

type g217 struct {
	*G191
	URL bool
	C   map[string]int `json:"$x" jz:"$x"`
	g193
	B  string `xml:"q" json:"t9" jz:"t9" alt:"z1,omitempty"`
	a  **int8
	Sk *int
	AB int64
	Ab int `xml:"q" json:"key" jz:"key" alt:"z1,omitempty"`
	Id uint16
	*g177
	Y    **int8      `json:",string" jz:",string"`
	Name interface{} `json:"semi;c" jz:"semi;c"`
}

type G218 struct {
	NAME []byte `json:"," jz:","`
	C    *bool
	*G192
	Name bool `json:"" jz:""`
}

type g219 struct {
	C    map[string]interface{}
	Name []byte
	a    [2]int8
	Kk   float64
}

// Generated lists the generated types.
var Generated = []reflect.Type{
	reflect.TypeOf(G000{}),
	reflect.TypeOf(G001{}),
	reflect.TypeOf(G002{}),
	reflect.TypeOf(G003{}),
	reflect.TypeOf(G004{}),
	reflect.TypeOf(G005{}),
	reflect.TypeOf(G006{}),
	reflect.TypeOf(g007{}),
	reflect.TypeOf(G008{}),
	reflect.TypeOf(G009{}),
	reflect.TypeOf(G010{}),
	reflect.TypeOf(G011{}),
	reflect.TypeOf(G012{}),
	reflect.TypeOf(G013{}),
	reflect.TypeOf(G014{}),
	reflect.TypeOf(G015{}),
	reflect.TypeOf(G016{}),
	reflect.TypeOf(G017{}),
	reflect.TypeOf(G018{}),
	reflect.TypeOf(G019{}),
	reflect.TypeOf(G020{}),
	reflect.TypeOf(G021{}),
	reflect.TypeOf(G022{}),
	reflect.TypeOf(G023{}),
	reflect.TypeOf(g024{}),
	reflect.TypeOf(G025{}),
	reflect.TypeOf(g026{}),
	reflect.TypeOf(G027{}),
	reflect.TypeOf(G028{}),
	reflect.TypeOf(G029{}),
	reflect.TypeOf(G030{}),
	reflect.TypeOf(G031{}),
	reflect.TypeOf(G032{}),
	reflect.TypeOf(g033{}),
	reflect.TypeOf(G034{}),
	reflect.TypeOf(G035{}),
	reflect.TypeOf(G036{}),
	reflect.TypeOf(g037{}),
	reflect.TypeOf(g038{}),
	reflect.TypeOf(G039{}),
	reflect.TypeOf(G040{}),
	reflect.TypeOf(G041{}),
	reflect.TypeOf(G042{}),
	reflect.TypeOf(G043{}),
	reflect.TypeOf(g044{}),
	reflect.TypeOf(g045{}),
	reflect.TypeOf(G046{}),
	reflect.TypeOf(G047{}),
	reflect.TypeOf(g048{}),
	reflect.TypeOf(G049{}),
	reflect.TypeOf(G050{}),
	reflect.TypeOf(G051{}),
	reflect.TypeOf(g052{}),
	reflect.TypeOf(g053{}),
	reflect.TypeOf(G054{}),
	reflect.TypeOf(G055{}),
	reflect.TypeOf(G056{}),
	reflect.TypeOf(G057{}),
	reflect.TypeOf(g058{}),
	reflect.TypeOf(g059{}),
	reflect.TypeOf(G060{}),
	reflect.TypeOf(g061{}),
	reflect.TypeOf(G062{}),
	reflect.TypeOf(g063{}),
	reflect.TypeOf(g064{}),
	reflect.TypeOf(g065{}),
	reflect.TypeOf(G066{}),
	reflect.TypeOf(G067{}),
	reflect.TypeOf(g068{}),
	reflect.TypeOf(G069{}),
	reflect.TypeOf(G070{}),
	reflect.TypeOf(G071{}),
	reflect.TypeOf(g072{}),
	reflect.TypeOf(g073{}),
	reflect.TypeOf(G074{}),
	reflect.TypeOf(g075{}),
	reflect.TypeOf(g076{}),
	reflect.TypeOf(G077{}),
	reflect.TypeOf(G078{}),
	reflect.TypeOf(G079{}),
	reflect.TypeOf(G080{}),
	reflect.TypeOf(g081{}),
	reflect.TypeOf(g082{}),
	reflect.TypeOf(G083{}),
	reflect.TypeOf(G084{}),
	reflect.TypeOf(G085{}),
	reflect.TypeOf(G086{}),
	reflect.TypeOf(G087{}),
	reflect.TypeOf(g088{}),
	reflect.TypeOf(G089{}),
	reflect.TypeOf(G090{}),
	reflect.TypeOf(g091{}),
	reflect.TypeOf(G092{}),
	reflect.TypeOf(G093{}),
	reflect.TypeOf(G094{}),
	reflect.TypeOf(G095{}),
	reflect.TypeOf(g096{}),
	reflect.TypeOf(g097{}),
	reflect.TypeOf(g098{}),
	reflect.TypeOf(G099{}),
	reflect.TypeOf(g100{}),
	reflect.TypeOf(G101{}),
	reflect.TypeOf(g102{}),
	reflect.TypeOf(g103{}),
	reflect.TypeOf(g104{}),
	reflect.TypeOf(g105{}),
	reflect.TypeOf(g106{}),
	reflect.TypeOf(G107{}),
	reflect.TypeOf(g108{}),
	reflect.TypeOf(g109{}),
	reflect.TypeOf(G110{}),
	reflect.TypeOf(g111{}),
	reflect.TypeOf(G112{}),
	reflect.TypeOf(G113{}),
	reflect.TypeOf(G114{}),
	reflect.TypeOf(G115{}),
	reflect.TypeOf(G116{}),
	reflect.TypeOf(g117{}),
	reflect.TypeOf(g118{}),
	reflect.TypeOf(g119{}),
	reflect.TypeOf(G120{}),
	reflect.TypeOf(g121{}),
	reflect.TypeOf(G122{}),
	reflect.TypeOf(g123{}),
	reflect.TypeOf(g124{}),
	reflect.TypeOf(G125{}),
	reflect.TypeOf(G126{}),
	reflect.TypeOf(g127{}),
	reflect.TypeOf(g128{}),
	reflect.TypeOf(G129{}),
	reflect.TypeOf(G130{}),
	reflect.TypeOf(G131{}),
	reflect.TypeOf(G132{}),
	reflect.TypeOf(G133{}),
	reflect.TypeOf(g134{}),
	reflect.TypeOf(g135{}),
	reflect.TypeOf(g136{}),
	reflect.TypeOf(G137{}),
	reflect.TypeOf(G138{}),
	reflect.TypeOf(g139{}),
	reflect.TypeOf(G140{}),
	reflect.TypeOf(G141{}),
	reflect.TypeOf(G142{}),
	reflect.TypeOf(g143{}),
	reflect.TypeOf(G144{}),
	reflect.TypeOf(G145{}),
	reflect.TypeOf(G146{}),
	reflect.TypeOf(G147{}),
	reflect.TypeOf(G148{}),
	reflect.TypeOf(g149{}),
	reflect.TypeOf(G150{}),
	reflect.TypeOf(G151{}),
	reflect.TypeOf(G152{}),
	reflect.TypeOf(G153{}),
	reflect.TypeOf(G154{}),
	reflect.TypeOf(g155{}),
	reflect.TypeOf(G156{}),
	reflect.TypeOf(G157{}),
	reflect.TypeOf(G158{}),
	reflect.TypeOf(G159{}),
	reflect.TypeOf(g160{}),
	reflect.TypeOf(G161{}),
	reflect.TypeOf(g162{}),
	reflect.TypeOf(G163{}),
	reflect.TypeOf(G164{}),
	reflect.TypeOf(G165{}),
	reflect.TypeOf(G166{}),
	reflect.TypeOf(G167{}),
	reflect.TypeOf(g168{}),
	reflect.TypeOf(G169{}),
	reflect.TypeOf(g170{}),
	reflect.TypeOf(g171{}),
	reflect.TypeOf(g172{}),
	reflect.TypeOf(G173{}),
	reflect.TypeOf(G174{}),
	reflect.TypeOf(G175{}),
	reflect.TypeOf(g176{}),
	reflect.TypeOf(g177{}),
	reflect.TypeOf(g178{}),
	reflect.TypeOf(g179{}),
	reflect.TypeOf(G180{}),
	reflect.TypeOf(g181{}),
	reflect.TypeOf(g182{}),
	reflect.TypeOf(G183{}),
	reflect.TypeOf(G184{}),
	reflect.TypeOf(G185{}),
	reflect.TypeOf(G186{}),
	reflect.TypeOf(g187{}),
	reflect.TypeOf(G188{}),
	reflect.TypeOf(g189{}),
	reflect.TypeOf(G190{}),
	reflect.TypeOf(G191{}),
	reflect.TypeOf(G192{}),
	reflect.TypeOf(g193{}),
	reflect.TypeOf(G194{}),
	reflect.TypeOf(G195{}),
	reflect.TypeOf(G196{}),
	reflect.TypeOf(g197{}),
	reflect.TypeOf(G198{}),
	reflect.TypeOf(G199{}),
	reflect.TypeOf(G200{}),
	reflect.TypeOf(G201{}),
	reflect.TypeOf(g202{}),
	reflect.TypeOf(G203{}),
	reflect.TypeOf(g204{}),
	reflect.TypeOf(G205{}),
	reflect.TypeOf(g206{}),
	reflect.TypeOf(G207{}),
	reflect.TypeOf(G208{}),
	reflect.TypeOf(g209{}),
	reflect.TypeOf(g210{}),
	reflect.TypeOf(G211{}),
	reflect.TypeOf(g212{}),
	reflect.TypeOf(g213{}),
	reflect.TypeOf(G214{}),
	reflect.TypeOf(G215{}),
	reflect.TypeOf(G216{}),
	reflect.TypeOf(g217{}),
	reflect.TypeOf(G218{}),
	reflect.TypeOf(g219{}),
}
