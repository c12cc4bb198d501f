// Package ref holds the reference models: an independent RFC 8259 recogniser
// and decoder, written without looking like the code under test.
package ref

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Kind of a JSON value.
type Kind int

// kinds
const (
	Null Kind = iota
	Bool
	Num
	Str
	Arr
	Obj
)

func (k Kind) String() string {
	return [...]string{"null", "bool", "number", "string", "array", "object"}[k]
}

// Node is a parsed JSON value.
type Node struct {
	Kind  Kind
	B     bool
	Num   string // literal
	Str   string // decoded
	Elems []*Node
	Keys  []string
	Vals  []*Node
	Start int // span in the text
	End   int
	KeySp [][2]int // spans of the keys (with quotes)
}

// Status of a parse.
type Status int

// statuses
const (
	OK Status = iota
	Invalid
	Short // the input ended inside the value
)

type parser struct {
	s     []byte
	depth int
	max   int
}

// IsWS tells if c is JSON whitespace.
func IsWS(c byte) bool { return c == ' ' || c == '\t' || c == '\n' || c == '\r' }

// SkipWS returns the first offset >= i that is not whitespace.
func SkipWS(s []byte, i int) int {
	for i < len(s) && IsWS(s[i]) {
		i++
	}
	return i
}

// Prefix parses the first value of s starting at i (leading whitespace
// allowed) and returns it.
func Prefix(s []byte, i int) (*Node, Status) {
	p := &parser{s: s}
	return p.value(SkipWS(s, i))
}

// Document parses a whole JSON text.
func Document(s []byte) (*Node, Status) {
	n, st := Prefix(s, 0)
	if st != OK {
		return nil, st
	}
	if SkipWS(s, n.End) != len(s) {
		return nil, Invalid
	}
	return n, OK
}

// Valid tells if s is one JSON text.
func Valid(s []byte) bool {
	_, st := Document(s)
	return st == OK
}

func (p *parser) lit(i int, word string) Status {
	for j := 0; j < len(word); j++ {
		if i+j >= len(p.s) {
			return Short
		}
		if p.s[i+j] != word[j] {
			return Invalid
		}
	}
	return OK
}

func (p *parser) value(i int) (*Node, Status) {
	if i >= len(p.s) {
		return nil, Short
	}
	switch c := p.s[i]; {
	case c == 'n':
		st := p.lit(i, "null")
		return &Node{Kind: Null, Start: i, End: i + 4}, st
	case c == 't':
		st := p.lit(i, "true")
		return &Node{Kind: Bool, B: true, Start: i, End: i + 4}, st
	case c == 'f':
		st := p.lit(i, "false")
		return &Node{Kind: Bool, Start: i, End: i + 5}, st
	case c == '"':
		str, end, st := p.str(i)
		return &Node{Kind: Str, Str: str, Start: i, End: end}, st
	case c == '-' || c >= '0' && c <= '9':
		end, st := p.num(i)
		if st != OK {
			return nil, st
		}
		return &Node{Kind: Num, Num: string(p.s[i:end]), Start: i, End: end}, OK
	case c == '[':
		n := &Node{Kind: Arr, Start: i}
		j := SkipWS(p.s, i+1)
		if j < len(p.s) && p.s[j] == ']' {
			n.End = j + 1
			return n, OK
		}
		for {
			e, st := p.value(j)
			if st != OK {
				return nil, st
			}
			n.Elems = append(n.Elems, e)
			j = SkipWS(p.s, e.End)
			if j >= len(p.s) {
				return nil, Short
			}
			if p.s[j] == ']' {
				n.End = j + 1
				return n, OK
			}
			if p.s[j] != ',' {
				return nil, Invalid
			}
			j = SkipWS(p.s, j+1)
		}
	case c == '{':
		n := &Node{Kind: Obj, Start: i}
		j := SkipWS(p.s, i+1)
		if j < len(p.s) && p.s[j] == '}' {
			n.End = j + 1
			return n, OK
		}
		for {
			if j >= len(p.s) {
				return nil, Short
			}
			if p.s[j] != '"' {
				return nil, Invalid
			}
			k, end, st := p.str(j)
			if st != OK {
				return nil, st
			}
			n.KeySp = append(n.KeySp, [2]int{j, end})
			j = SkipWS(p.s, end)
			if j >= len(p.s) {
				return nil, Short
			}
			if p.s[j] != ':' {
				return nil, Invalid
			}
			v, st := p.value(SkipWS(p.s, j+1))
			if st != OK {
				return nil, st
			}
			n.Keys = append(n.Keys, k)
			n.Vals = append(n.Vals, v)
			j = SkipWS(p.s, v.End)
			if j >= len(p.s) {
				return nil, Short
			}
			if p.s[j] == '}' {
				n.End = j + 1
				return n, OK
			}
			if p.s[j] != ',' {
				return nil, Invalid
			}
			j = SkipWS(p.s, j+1)
		}
	}
	return nil, Invalid
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

// num returns the end of the number starting at i (longest match).
func (p *parser) num(i int) (int, Status) {
	at := func(k int) byte {
		if k < len(p.s) {
			return p.s[k]
		}
		return 0
	}
	need := func(k int) Status {
		if k >= len(p.s) {
			return Short
		}
		if !isDigit(p.s[k]) {
			return Invalid
		}
		return OK
	}
	if at(i) == '-' {
		i++
	}
	if st := need(i); st != OK {
		return 0, st
	}
	if at(i) == '0' {
		i++
	} else {
		for isDigit(at(i)) {
			i++
		}
	}
	if at(i) == '.' {
		i++
		if st := need(i); st != OK {
			return 0, st
		}
		for isDigit(at(i)) {
			i++
		}
	}
	if at(i) == 'e' || at(i) == 'E' {
		i++
		if at(i) == '+' || at(i) == '-' {
			i++
		}
		if st := need(i); st != OK {
			return 0, st
		}
		for isDigit(at(i)) {
			i++
		}
	}
	return i, OK
}

func (p *parser) str(i int) (string, int, Status) {
	i++ // quote
	var out []byte
	hex := func(k int) (rune, Status) {
		var r rune
		for j := 0; j < 4; j++ {
			if k+j >= len(p.s) {
				return 0, Short
			}
			c := p.s[k+j]
			d := strings.IndexByte("0123456789abcdef", c|0x20)
			if isDigit(c) {
				d = int(c - '0')
			} else if c < 'A' || d < 10 {
				return 0, Invalid
			}
			r = r<<4 | rune(d)
		}
		return r, OK
	}
	for {
		if i >= len(p.s) {
			return "", 0, Short
		}
		c := p.s[i]
		switch {
		case c == '"':
			return string(out), i + 1, OK
		case c < 0x20:
			return "", 0, Invalid
		case c != '\\':
			out = append(out, c)
			i++
		default:
			i++
			if i >= len(p.s) {
				return "", 0, Short
			}
			e := p.s[i]
			i++
			switch e {
			case '"', '\\', '/':
				out = append(out, e)
			case 'b':
				out = append(out, '\b')
			case 'f':
				out = append(out, '\f')
			case 'n':
				out = append(out, '\n')
			case 'r':
				out = append(out, '\r')
			case 't':
				out = append(out, '\t')
			case 'u':
				r, st := hex(i)
				if st != OK {
					return "", 0, st
				}
				i += 4
				if r >= 0xd800 && r < 0xdc00 && i+1 < len(p.s) && p.s[i] == '\\' && p.s[i+1] == 'u' {
					if lo, st := hex(i + 2); st == OK && lo >= 0xdc00 && lo < 0xe000 {
						r = 0x10000 + (r-0xd800)<<10 + (lo - 0xdc00)
						i += 6
					}
				}
				if r >= 0xd800 && r < 0xe000 {
					r = utf8.RuneError
				}
				out = utf8.AppendRune(out, r)
			default:
				return "", 0, Invalid
			}
		}
	}
}

// Interface gives the generic Go value of a node. ok is false when a number
// has no float64 value (out of range).
func (n *Node) Interface(useNumber func(lit string) interface{}) (v interface{}, ok bool) {
	switch n.Kind {
	case Null:
		return nil, true
	case Bool:
		return n.B, true
	case Str:
		return n.Str, true
	case Num:
		if useNumber != nil {
			return useNumber(n.Num), true
		}
		f, err := strconv.ParseFloat(n.Num, 64)
		return f, err == nil
	case Arr:
		r := make([]interface{}, 0, len(n.Elems))
		for _, e := range n.Elems {
			x, ok := e.Interface(useNumber)
			if !ok {
				return nil, false
			}
			r = append(r, x)
		}
		return r, true
	default:
		r := map[string]interface{}{}
		for i, k := range n.Keys {
			x, ok := n.Vals[i].Interface(useNumber)
			if !ok {
				return nil, false
			}
			r[k] = x
		}
		return r, true
	}
}

// Int gives the exact value of an integer literal (digits with optional sign).
func Int(lit string) (*big.Int, bool) {
	return new(big.Int).SetString(lit, 10)
}

// Canon renders a node canonically: objects sorted when unordered is set.
func (n *Node) Canon(unordered bool) string {
	var sb strings.Builder
	n.canon(&sb, unordered)
	return sb.String()
}

func (n *Node) canon(sb *strings.Builder, un bool) {
	switch n.Kind {
	case Null:
		sb.WriteString("null")
	case Bool:
		fmt.Fprint(sb, n.B)
	case Num:
		sb.WriteString(n.Num)
	case Str:
		fmt.Fprintf(sb, "%q", n.Str)
	case Arr:
		sb.WriteByte('[')
		for i, e := range n.Elems {
			if i > 0 {
				sb.WriteByte(',')
			}
			e.canon(sb, un)
		}
		sb.WriteByte(']')
	case Obj:
		items := make([]string, len(n.Keys))
		for i, k := range n.Keys {
			items[i] = fmt.Sprintf("%q:%s", k, n.Vals[i].Canon(un))
		}
		if un {
			sortStrings(items)
		}
		sb.WriteByte('{')
		sb.WriteString(strings.Join(items, ","))
		sb.WriteByte('}')
	}
}

func sortStrings(s []string) { sort.Strings(s) }

// Depth of nesting.
func (n *Node) Depth() int {
	d := 0
	for _, e := range n.Elems {
		if x := e.Depth(); x > d {
			d = x
		}
	}
	for _, e := range n.Vals {
		if x := e.Depth(); x > d {
			d = x
		}
	}
	if n.Kind == Arr || n.Kind == Obj {
		d++
	}
	return d
}
