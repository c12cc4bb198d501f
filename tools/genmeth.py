#!/usr/bin/env python3
"""Writes harness/cat/gen_meth.go: types of every kind with methods."""
import os
K = ["bool","int","int8","int16","int32","int64","uint","uint8","uint16","uint32","uint64","uintptr",
     "float32","float64","string","[]int","[]byte","[2]int8","map[string]int","struct{ A, B int }","struct{ P *int }","[1]*int"]
N = ["Bool","Int","Int8","Int16","Int32","Int64","Uint","Uint8","Uint16","Uint32","Uint64","Uintptr",
     "Float32","Float64","String","Slice","Bytes","Array","Map","Struct","PStruct","PArray"]
o = ["// Code generated by genmeth.py. DO NOT EDIT.", "", "package cat", "", 'import (', '\t"fmt"', '\t"reflect"', ')', ""]
lists = {}
def add(l, n): lists.setdefault(l, []).append(n)
def show(k):
    if k in ("struct{ P *int }", "[1]*int"):
        return '\ts := showPtr(%s)\n' % ("x.P" if k.startswith("struct") else "x[0]")
    return '\ts := fmt.Sprint(%s(x))\n' % (k if k[0] not in "[m" and not k.startswith("struct") else "(" + k + ")")
for k, n in zip(K, N):
    for recv in "VP":
        for m in "JT":
            t = "K%s%s%s" % (recv, m, n)
            add("Enc" + recv, t)
            o.append("// %s is a kind with methods.\ntype %s %s\n" % (t, t, k))
            r = "x " + t if recv == "V" else "p *" + t
            f = "MarshalJSON" if m == "J" else "MarshalText"
            b = "" if recv == "V" else "\tx := *p\n"
            b += show(k)
            if m == "J":
                b += '\treturn []byte(fmt.Sprintf(`[%%q]`, "%s"+hex(s))), nil\n' % t
            else:
                b += '\treturn []byte("<%s>" + s), nil\n' % t
            o.append("func (%s) %s() ([]byte, error) {\n%s}\n" % (r, f, b))
    for m in "JT":
        t = "KD%s%s" % (m, n)
        add("Dec", t)
        o.append("// %s is a kind with methods.\ntype %s %s\n" % (t, t, k))
        f = "UnmarshalJSON" if m == "J" else "UnmarshalText"
        if n == "Bool": b = "*x = len(b)%2 == 1"
        elif n == "String": b = '*x = %s("%s" + string(b))' % (t, m)
        elif n == "Slice": b = "*x = append(*x, len(b))"
        elif n == "Bytes": b = "*x = append(*x, b...)"
        elif n == "Array": b = "x[0]++\n\tx[1] = int8(len(b))"
        elif n == "Map": b = "if *x == nil {\n\t\t*x = %s{}\n\t}\n\t(*x)[string(b)]++" % t
        elif n == "Struct": b = "x.A++\n\tx.B = len(b)"
        elif n == "PStruct": b = "n := len(b)\n\tx.P = &n"
        elif n == "PArray": b = "n := len(b)\n\tx[0] = &n"
        else: b = "*x = %s(len(b))" % t
        o.append("func (x *%s) %s(b []byte) error {\n\tif bad(b) {\n\t\treturn ErrUser\n\t}\n\t%s\n\treturn nil\n}\n" % (t, f, b))
o.append('func showPtr(p *int) string {\n\tif p == nil {\n\t\treturn "nil"\n\t}\n\treturn fmt.Sprint(*p)\n}\n')
o.append('func bad(b []byte) bool { return len(b) > 2 && b[len(b)-2] == \'!\' }\n')
o.append('func hex(s string) string { return fmt.Sprintf("%x", s) }\n')
for l, ts in sorted(lists.items()):
    o.append("// Meth%s are types of every kind with methods.\nvar Meth%s = []reflect.Type{" % (l, l))
    for t in ts: o.append("\treflect.TypeOf((*%s)(nil)).Elem()," % t)
    o.append("}\n")
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "cat", "gen_meth.go")
open(p, "w").write("\n".join(o))
