// Package gen holds the generators shared by the properties.
package gen

import (
	"fmt"
	"math"
	"math/big"
	"strconv"
	"unicode/utf8"

	"verif/eng"
)

// J are the options of the JSON text generator.
type J struct {
	MaxDepth  int
	MaxElems  int
	BadUTF8   bool // strings may contain raw bytes which are not UTF-8
	NoLoneSur bool // no lone surrogate escapes
	NoHuge    bool // no number out of float64 range
	LongStr   int  // max length of a long string (0: 1500)
	WS        int  // whitespace level 0..3
	Budget    int  // total number of values
}

// DefaultJ are sensible options.
func DefaultJ() *J { return &J{MaxDepth: 5, MaxElems: 8, Budget: 60, WS: 2} }

// WS appends random whitespace.
func WS(t *eng.T, b []byte, level int) []byte {
	if level <= 0 {
		return b
	}
	switch t.W(10, 4, 2) {
	case 0:
		return b
	case 1:
		return append(b, " \t\n\r"[t.Int(4)])
	}
	n := t.Range(1, 4)
	if level > 1 && t.P(1, 40) {
		n = t.Size(1100)
	}
	for i := 0; i < n; i++ {
		b = append(b, " \t\n\r"[t.Int(4)])
	}
	return b
}

// WS2 leaves the whitespace out between many members.
func WS2(t *eng.T, b []byte, level, n int) []byte {
	if n > 300 {
		return b
	}
	return WS(t, b, level)
}

// Text appends a random valid JSON value.
func Text(t *eng.T, b []byte, j *J) []byte {
	budget := j.Budget
	return text(t, b, j, 0, &budget)
}

func text(t *eng.T, b []byte, j *J, depth int, budget *int) []byte {
	*budget--
	wa, wo := 5, 5
	if depth >= j.MaxDepth || *budget <= 0 {
		wa, wo = 0, 0
	}
	switch t.W(2, 2, 5, 5, wa, wo) {
	case 0:
		return append(b, "null"...)
	case 1:
		if t.Bool() {
			return append(b, "true"...)
		}
		return append(b, "false"...)
	case 2:
		return append(b, Number(t, j.NoHuge)...)
	case 3:
		return String(t, b, j)
	case 4:
		b = append(b, '[')
		b = WS(t, b, j.WS)
		n := elems(t, j, depth)
		salt := 0
		if n > wide {
			salt = t.Int(9)
		}
		for i := 0; i < n && (*budget > 0 || i == 0 || n > wide); i++ {
			if i > 0 {
				b = append(b, ',')
				b = WS2(t, b, j.WS, n)
			}
			if n > wide && (i > 5 && i < n-2 || salt < 3) {
				b = small(b, i, salt)
				continue
			}
			b = text(t, b, j, depth+1, budget)
			b = WS(t, b, j.WS)
		}
		return append(b, ']')
	default:
		b = append(b, '{')
		b = WS(t, b, j.WS)
		n := elems(t, j, depth)
		salt := 0
		if n > wide {
			salt = t.Int(9)
		}
		for i := 0; i < n && (*budget > 0 || i == 0 || n > wide); i++ {
			if i > 0 {
				b = append(b, ',')
				b = WS2(t, b, j.WS, n)
			}
			if n > wide && (i > 5 && i < n-2 || salt < 3) {
				b = append(b, "\"k"...)
				b = strconv.AppendInt(b, int64(i), 10)
				b = append(b, "\":"...)
				b = small(b, i, salt)
				continue
			}
			b = Key(t, b, j)
			b = WS(t, b, j.WS)
			b = append(b, ':')
			b = WS(t, b, j.WS)
			b = text(t, b, j, depth+1, budget)
			b = WS(t, b, j.WS)
		}
		return append(b, '}')
	}
}

// arrays and objects with more elements are wide: most elements are small and
// do not count
const wide = 40

func small(b []byte, i, salt int) []byte {
	k := (i*7/3 + salt*i + salt) % 9
	if salt < 5 && (k == 0 || k == 3) {
		k = 5 // only scalars
	}
	switch k {
	case 0:
		return append(b, '[', ']')
	case 1:
		return append(b, `"s"`...)
	case 2:
		return append(b, "true"...)
	case 3:
		return append(b, "{}"...)
	case 4:
		return append(b, "null"...)
	case 5:
		return append(b, '0')
	}
	return strconv.AppendInt(b, int64(i-100), 10)
}

func elems(t *eng.T, j *J, depth int) int {
	if depth == 0 && t.P(1, 25) {
		return t.Size(300)
	}
	if depth == 0 && t.P(1, 1500) {
		return Big(t) / 8
	}
	return t.Int(j.MaxElems + 1)
}

// Key appends an object key: from a small alphabet most of the time, so that
// duplicate keys are common.
func Key(t *eng.T, b []byte, j *J) []byte {
	switch t.W(6, 3, 1) {
	case 0:
		return append(b, `"`+string("abcdefgh"[t.Int(8)])+`"`...)
	case 1:
		return String(t, b, j)
	default:
		return append(b, `""`...)
	}
}

// DocJ appends a whole document with surrounding whitespace.
func DocJ(t *eng.T, j *J) []byte {
	b := WS(t, nil, j.WS)
	b = Text(t, b, j)
	return WS(t, b, j.WS)
}

// Number returns a random number literal.
func Number(t *eng.T, noHuge bool) string {
	switch t.W(8, 8, 6, 8, 5, 3, 2) {
	case 0: // small
		return strconv.Itoa(t.Range(-20, 300))
	case 1:
		return IntLit(t)
	case 2: // random digits
		return sign(t) + Digits(t, t.Range(1, 25), true)
	case 3: // fraction
		return sign(t) + Digits(t, t.Range(1, 20), true) + "." + Digits(t, 1+t.Size(24), false)
	case 4: // exponent
		s := sign(t) + Digits(t, t.Range(1, 18), true)
		if t.Bool() {
			s += "." + Digits(t, t.Range(1, 20), false)
		}
		e := t.Range(0, 30)
		if t.P(1, 4) {
			e = t.Range(0, 290)
		}
		if !noHuge && t.P(1, 12) {
			e = t.Range(290, 420)
		}
		neg := t.Bool()
		es := t.Str("e", "E")
		if neg {
			es += "-"
			if t.P(1, 6) {
				e += 40
			}
		} else if t.Bool() {
			es += "+"
		}
		z := ""
		if t.P(1, 8) {
			z = "000"[:t.Range(1, 3)]
		}
		return s + es + z + strconv.Itoa(e)
	case 5: // hard floats
		return HardFloat(t)
	default:
		if t.Bool() {
			return sign(t) + "0." + Digits(t, 1+t.Size(700), false)
		}
		n := t.Size(290) + 1
		return sign(t) + Digits(t, n, true)
	}
}

func sign(t *eng.T) string {
	if t.P(1, 3) {
		return "-"
	}
	return ""
}

// Digits returns n digits (without a leading zero when lead is set and n > 1).
func Digits(t *eng.T, n int, lead bool) string {
	b := make([]byte, n)
	mode := t.W(6, 1, 1)
	for i := range b {
		switch mode {
		case 0:
			if n > 40 && i > 24 && i < n-8 {
				b[i] = byte('0' + (i*7+int(b[i-9]))%10)
			} else {
				b[i] = byte('0' + t.Int(10))
			}
		case 1:
			b[i] = '9'
		default:
			b[i] = '0'
		}
	}
	if lead && n > 1 && b[0] == '0' {
		b[0] = byte('1' + t.Int(9))
	}
	return string(b)
}

var bounds = []uint{7, 8, 15, 16, 24, 31, 32, 53, 63, 64, 127, 128}

// IntLit returns an integer literal, biased to the bounds of the widths.
func IntLit(t *eng.T) string {
	switch t.W(6, 3, 2, 1) {
	case 0: // near a power of two
		v := new(big.Int).Lsh(big.NewInt(1), bounds[t.Int(len(bounds))])
		v.Add(v, big.NewInt(int64(t.Range(-3, 3))))
		if t.Bool() {
			v.Neg(v)
		}
		return v.String()
	case 1: // near a power of ten times a digit
		v := new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(t.Int(22))), nil)
		v.Mul(v, big.NewInt(int64(t.Range(1, 99))))
		v.Add(v, big.NewInt(int64(t.Range(-2, 2))))
		if t.Bool() {
			v.Neg(v)
		}
		return v.String()
	case 2: // a bound with a changed or an added digit
		v := new(big.Int).Lsh(big.NewInt(1), bounds[t.Int(10)])
		v.Sub(v, big.NewInt(int64(t.Int(2))))
		s := []byte(v.String())
		if t.Bool() {
			s = append(s, byte('0'+t.Int(10)))
		} else {
			i := t.Int(len(s))
			s[i] = byte('0' + t.Int(10))
			if i == 0 && s[0] == '0' && len(s) > 1 {
				s[0] = '1'
			}
		}
		return sign(t) + string(s)
	default:
		return t.Str("-0", "0", "-1", "1", "10", "100", "1000")
	}
}

// HardFloat returns literals which are difficult to round.
func HardFloat(t *eng.T) string {
	switch t.W(3, 3, 2, 2) {
	case 0: // shortest of random bits
		f := math.Float64frombits(t.U64() &^ (1 << 63))
		if math.IsNaN(f) || math.IsInf(f, 0) {
			f = 1.5
		}
		return sign(t) + strconv.FormatFloat(f, "eg"[t.Int(1)], -1, 64)
	case 1: // exactly half way between two doubles (or floats), maybe off by one digit
		f := math.Float64frombits(t.U64() &^ (1 << 63))
		if math.IsNaN(f) || math.IsInf(f, 0) || f > 1e60 || f < 1e-20 {
			f = 1 + float64(t.Int(1<<30))
		}
		a := new(big.Float).SetPrec(4000).SetFloat64(f)
		c := new(big.Float).SetPrec(4000).SetFloat64(math.Nextafter(f, math.Inf(1)))
		if t.Bool() {
			f32 := float32(f)
			a.SetFloat64(float64(f32))
			c.SetFloat64(float64(math.Nextafter32(f32, float32(math.Inf(1)))))
		}
		if c.IsInf() {
			return "1.5"
		}
		m := new(big.Float).SetPrec(4000).Add(a, c)
		m.Quo(m, big.NewFloat(2).SetPrec(4000))
		s := m.Text('f', 120)
		if t.Bool() {
			s += t.Str("1", "0", "01")
		}
		return s
	case 2:
		return t.Str("1.7976931348623157e308", "4.9e-324", "5e-324", "2.2250738585072014e-308", "2.2250738585072011e-308",
			"3.4028234663852886e38", "3.4028235e38", "1e-45", "1.4e-45", "7e-46", "0.1", "1e23", "9007199254740993", "8.5e22", "0e5", "-0.0", "0.0", "1e-400", "123456789012345678901234567890",
			"1e21", "1e20", "999999999999999999999", "1e-6", "1e-7", "0.000001", "0.0000001")
	default:
		f := math.Float32frombits(uint32(t.Uint(1 << 31)))
		if f != f || math.IsInf(float64(f), 0) {
			f = 2.5
		}
		return strconv.FormatFloat(float64(f), 'e', -1, 32)
	}
}

const hexl = "0123456789abcdef"
const hexu = "0123456789ABCDEF"

// UEsc appends a \u escape with random case of the digits.
func UEsc(t *eng.T, b []byte, r rune) []byte {
	b = append(b, '\\', 'u')
	h := hexl
	mode := t.Int(3)
	for s := 12; s >= 0; s -= 4 {
		if mode == 1 || mode == 2 && t.Bool() {
			h = hexu
		} else {
			h = hexl
		}
		b = append(b, h[(r>>uint(s))&15])
	}
	return b
}

// Rune draws a rune by class (never a surrogate).
func Rune(t *eng.T) rune {
	switch t.W(6, 3, 3, 3, 3, 2, 2) {
	case 0:
		return rune(t.Range(0x20, 0x7f))
	case 1:
		return rune(t.Range(0x80, 0x7ff))
	case 2:
		r := rune(t.Range(0x800, 0xffff))
		if r >= 0xd800 && r < 0xe000 {
			r = 0x4e2d
		}
		return r
	case 3:
		return rune(t.Range(0x10000, 0x10ffff))
	case 4:
		return rune(t.Int(0x20))
	case 5:
		return []rune{'<', '>', '&', '"', '\\', '/', '\'', 0x7f, 0x2028, 0x2029}[t.Int(10)]
	default:
		return []rune{0x80, 0x7f, 0x7ff, 0x800, 0xd7ff, 0xe000, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x2027, 0x202a, 0x2028, 0x2029, 0xa0, 0x212a, 0x17f}[t.Int(18)]
	}
}

// String appends a JSON string literal.
func String(t *eng.T, b []byte, j *J) []byte {
	b = append(b, '"')
	b = StrBody(t, b, j)
	return append(b, '"')
}

// StrBody appends the body of a JSON string literal.
func StrBody(t *eng.T, b []byte, j *J) []byte {
	n := 0
	switch t.W(4, 6, 2) {
	case 1:
		n = t.Range(1, 4)
	case 2:
		n = t.Range(3, 14)
	}
	for i := 0; i < n; i++ {
		b = StrPiece(t, b, j)
	}
	return b
}

// StrPiece appends a piece of a string literal.
func StrPiece(t *eng.T, b []byte, j *J) []byte {
	bad := 0
	if j.BadUTF8 {
		bad = 2
	}
	lone := 2
	if j.NoLoneSur {
		lone = 0
	}
	switch t.W(8, 4, 4, 4, 3, 4, 1, lone, bad) {
	case 0: // ascii run
		n := t.Range(1, 8)
		for i := 0; i < n; i++ {
			c := byte(t.Range(0x20, 0x7e))
			if c == '"' || c == '\\' {
				c = 'x'
			}
			b = append(b, c)
		}
		return b
	case 1: // simple escapes
		return append(b, '\\', `"\/bfnrt`[t.Int(8)])
	case 2: // BMP escape
		r := Rune(t)
		if r > 0xffff {
			r &= 0xfff
		}
		return UEsc(t, b, r)
	case 3: // raw rune
		r := Rune(t)
		if r < 0x20 || r == '"' || r == '\\' {
			r = 'é'
		}
		return utf8.AppendRune(b, r)
	case 4: // surrogate pair
		r := rune(t.Range(0x10000, 0x10ffff)) - 0x10000
		b = UEsc(t, b, 0xd800+(r>>10))
		return UEsc(t, b, 0xdc00+(r&0x3ff))
	case 5: // single ascii
		return append(b, "abcABC019 <>&/'{}[],:"[t.Int(21)])
	case 6: // long run
		max := j.LongStr
		if max == 0 {
			max = 1500
		}
		n := t.Size(max)
		if t.P(1, 60) && j.LongStr == 0 {
			n = Big(t)
		}
		base := byte('a' + t.Int(20))
		for i := 0; i < n; i++ {
			b = append(b, base+byte(i%6))
		}
		return b
	case 7: // lone surrogates
		switch t.Int(5) {
		case 0:
			return UEsc(t, b, rune(t.Range(0xd800, 0xdbff)))
		case 1:
			return UEsc(t, b, rune(t.Range(0xdc00, 0xdfff)))
		case 2: // high then high
			b = UEsc(t, b, rune(t.Range(0xd800, 0xdbff)))
			return UEsc(t, b, rune(t.Range(0xd800, 0xdbff)))
		case 3: // high then a plain escape
			b = UEsc(t, b, rune(t.Range(0xd800, 0xdbff)))
			return append(b, '\\', `"\/bfnrt`[t.Int(8)])
		default: // high then a BMP escape
			b = UEsc(t, b, rune(t.Range(0xd800, 0xdbff)))
			return UEsc(t, b, rune(t.Range(0x20, 0x7e)))
		}
	default: // invalid UTF-8
		switch t.Int(4) {
		case 0:
			return append(b, byte(t.Range(0x80, 0xff)))
		case 1:
			return append(b, 0xed, byte(t.Range(0xa0, 0xbf)), byte(t.Range(0x80, 0xbf)))
		case 2:
			return append(b, 0xe2, 0x80)
		default:
			return append(b, 0xc0, 0x80, 0xff)
		}
	}
}

const alphabet = "{}[],:\"\\ \t\n\r-+0123456789.eEtruefalsnbx/\x00\x1f\x7f\x80\xffu'"

// Mutate applies up to n random edits to a JSON text.
func Mutate(t *eng.T, b []byte, n int) []byte {
	b = append([]byte(nil), b...)
	for k := t.Range(1, n); k > 0; k-- {
		switch t.W(4, 4, 4, 2, 2, 2, 2, 1) {
		case 7: // something that looks like whitespace
			i := t.Int(len(b) + 1)
			w := append([]byte(nil), "     \n\n\t\r  "[t.Int(8):]...)
			w = w[:t.Int(len(w)+1)]
			at := t.Int(len(w) + 1)
			w = append(w[:at:at], append([]byte(t.Str("\f", "\v", "\x00", "\b", "\x1f", "\xa0", "\u0085", "\u00a0", "\u2028", "\ufeff", "\x1c", "/**/")), w[at:]...)...)
			b = append(b[:i], append(w, b[i:]...)...)
		case 0: // delete
			if len(b) > 0 {
				i := t.Int(len(b))
				b = append(b[:i], b[i+1:]...)
			}
		case 1: // insert
			i := t.Int(len(b) + 1)
			b = append(b[:i], append([]byte{alphabet[t.Int(len(alphabet))]}, b[i:]...)...)
		case 2: // replace
			if len(b) > 0 {
				b[t.Int(len(b))] = alphabet[t.Int(len(alphabet))]
			}
		case 3: // truncate
			b = b[:t.Int(len(b)+1)]
		case 4: // duplicate a piece
			if len(b) > 0 {
				i := t.Int(len(b))
				m := i + t.Range(1, 6)
				if m > len(b) {
					m = len(b)
				}
				p := append([]byte(nil), b[i:m]...)
				at := t.Int(len(b) + 1)
				b = append(b[:at], append(p, b[at:]...)...)
			}
		case 5: // swap
			if len(b) > 1 {
				i := t.Int(len(b) - 1)
				b[i], b[i+1] = b[i+1], b[i]
			}
		default: // insert a token
			i := t.Int(len(b) + 1)
			tok := t.Str("null", "true", "false", "nul", "tru", "[]", "{}", "\"\"", "0", "01", "-", "1.", ".5", "1e", "1e+", "\\u12", "\\ud800", "\\x", ",,", ":", "NaN", "Infinity", "//", "\ufeff", "+1", "0x1", "[", "{", "]", "}", "\"a\":", "'a'")
			b = append(b[:i], append([]byte(tok), b[i:]...)...)
		}
	}
	return b
}

// Near returns a document which is valid or nearly so.
func Near(t *eng.T, j *J) []byte {
	b := DocJ(t, j)
	if t.P(1, 2) {
		b = Mutate(t, b, 3)
	}
	return b
}

// Snippets are adversarial fragments around every token class.
func Snippet(t *eng.T) []byte {
	n := t.Range(1, 7)
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, t.Str("[", "]", "{", "}", ",", ":", "\"", "\"a\"", "\"\"", "0", "1", "-", "-0", "00", "01", "1.5", "1.", ".1", "1e5", "1e", "1E+", "e", "true", "tru", "truee", "false", "fals", "null", "nul", "nulll", " ", "\t", "\n", "\r", "\v", "\f", "\x00", "\x1f", "\\", "\\n", "\\u0041", "\\u00", "\\ud83d\\ude00", "\xff", "é", "\"a\":1", "\"\\", "\"\\u", "\"\t\"", "+", "/", "\ufeff", "{\"a\":", "[1,", "a")...)
	}
	return b
}

// Deep returns a deeply nested document of the given depth; shape decides
// which containers are used at each level.
func Deep(t *eng.T, depth int) []byte {
	var b []byte
	closers := make([]byte, 0, depth)
	mode := t.Int(4)
	pad := t.Int(3)
	pat := t.U64()
	for i := 0; i < depth; i++ {
		obj := false
		switch mode {
		case 1:
			obj = true
		case 2:
			obj = i%2 == 0
		case 3:
			obj = (pat>>(uint(i)%64))&1 == 1
			if i%64 == 63 {
				pat = t.U64()
			}
		}
		if obj {
			b = append(b, '{')
			if pad == 1 && i%7 == 3 {
				b = append(b, `"z":[],`...)
			}
			b = append(b, `"k":`...)
			closers = append(closers, '}')
		} else {
			b = append(b, '[')
			if pad == 1 && i%5 == 2 {
				b = append(b, `{},[],1,`...)
			}
			closers = append(closers, ']')
		}
	}
	b = append(b, t.Str("null", "1", "[]", "{}", `"x"`)...)
	for i := len(closers) - 1; i >= 0; i-- {
		if pad == 2 && i%9 == 4 {
			if closers[i] == ']' {
				b = append(b, `,true,[{}]`...)
			} else {
				b = append(b, `,"y":{"a":[]}`...)
			}
		}
		b = append(b, closers[i])
	}
	return b
}

// Show renders bytes for logs.
func Show(b []byte) string {
	if len(b) > 600 {
		return fmt.Sprintf("%q… (%d bytes)", b[:600], len(b))
	}
	return fmt.Sprintf("%q", b)
}
