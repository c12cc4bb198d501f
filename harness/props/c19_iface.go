package props

import (
	"fmt"
	"reflect"
	"strconv"
	"unsafe"

	"github.com/zerosnake0/jzon"

	"verif/cat"
	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// inode is a node of a graph of values linked through interfaces and pointers.
type inode struct {
	V interface{}
	P *interface{}
	N *inode
	M map[string]interface{}
	L []interface{}
	I cat.Meth
	S string
	D **interface{}
	A [2]interface{}
}

// igraph has cells which point to each other in any way.
type igraph struct {
	cells []interface{}
	nodes []inode
	ptrs  []*interface{}
	ints  []int
	strs  []string
	maps  []map[string]interface{}
	arrs  [][]interface{}
	impl  []cat.MImpl
}

type iplan struct {
	kind, idx int
}

func (g *igraph) ref(p iplan) interface{} {
	switch p.kind {
	case 0:
		return nil
	case 1:
		return &g.cells[p.idx%len(g.cells)]
	case 2:
		return &g.nodes[p.idx%len(g.nodes)]
	case 3:
		return &g.ints[p.idx%len(g.ints)]
	case 4:
		return &g.strs[p.idx%len(g.strs)]
	case 5:
		return &g.maps[p.idx%len(g.maps)]
	case 6:
		return &g.arrs[p.idx%len(g.arrs)]
	case 7:
		return "value"
	case 8:
		return (*int)(nil)
	case 9:
		return map[string]interface{}{"x": 1.0}
	case 10:
		return &g.nodes[p.idx%len(g.nodes)].V
	case 11:
		return &g.nodes[p.idx%len(g.nodes)].A[p.idx%2]
	case 12:
		return &g.impl[p.idx%len(g.impl)]
	case 13:
		return inode{S: "v"}
	case 14:
		return &g.nodes[p.idx%len(g.nodes)].A
	default:
		return &g.ptrs[p.idx%len(g.ptrs)] // **interface{}
	}
}

func drawPlan(t *eng.T, loopy bool) iplan {
	if loopy {
		return iplan{[]int{1, 1, 1, 10, 11}[t.Int(5)], t.Int(100)}
	}
	return iplan{t.W(3, 8, 8, 3, 2, 3, 3, 2, 1, 1, 3, 2, 1, 1, 1), t.Int(100)}
}

// build makes the graph of a plan.
func build19(plans []iplan, nc, nn int) *igraph {
	g := &igraph{cells: make([]interface{}, nc), nodes: make([]inode, nn), ptrs: make([]*interface{}, 3),
		ints: make([]int, 2), strs: make([]string, 2), maps: make([]map[string]interface{}, 2), arrs: make([][]interface{}, 2), impl: make([]cat.MImpl, 2)}
	k := 0
	next := func() iplan { k++; return plans[k-1] }
	for i := range g.cells {
		g.cells[i] = g.ref(next())
	}
	cell := func(p iplan) *interface{} {
		switch p.kind {
		case 1, 10, 11:
			return g.ref(p).(*interface{})
		case 0, 3, 4:
			return nil
		}
		return &g.cells[p.idx%nc]
	}
	for i := range g.ptrs {
		g.ptrs[i] = cell(next())
	}
	for i := range g.nodes {
		n := &g.nodes[i]
		n.V = g.ref(next())
		n.P = cell(next())
		if p := next(); p.kind > 1 {
			n.N = &g.nodes[p.idx%nn]
		}
		if p := next(); p.kind > 2 {
			n.M = map[string]interface{}{"m": g.ref(p)}
		}
		if p := next(); p.kind > 2 {
			n.L = []interface{}{g.ref(p)}
		}
		if p := next(); p.kind > 2 {
			n.I = &g.impl[p.idx%2]
		}
		if p := next(); p.kind > 2 {
			n.D = &g.ptrs[p.idx%3]
		}
		n.A[0] = g.ref(next())
		n.A[1] = g.ref(next())
	}
	return g
}

type loopErr struct{}

// imerge is the model: like merger, with the detection of loops.
type imerge struct{ chain map[unsafe.Pointer]bool }

func (m *imerge) merge(n *ref.Node, v reflect.Value) {
	mm := &merger{}
	if n.Kind == ref.Null {
		mm.merge(n, v)
		return
	}
	sub := func(n *ref.Node, v reflect.Value) { (&imerge{chain: map[unsafe.Pointer]bool{}}).merge(n, v) }
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		m.merge(n, v.Elem())
	case reflect.Interface:
		if v.NumMethod() == 0 {
			p := v.Addr().UnsafePointer()
			if m.chain[p] {
				panic(loopErr{})
			}
			m.chain[p] = true
		}
		if !v.IsNil() && v.Elem().Kind() == reflect.Ptr && !v.Elem().IsNil() {
			m.merge(n, v.Elem().Elem())
			return
		}
		mm.merge(n, v)
	case reflect.Struct:
		if n.Kind != ref.Obj {
			mm.fail("object")
		}
		for i, k := range n.Keys {
			if p := mm.find(v.Type(), k); p != nil {
				sub(n.Vals[i], v.FieldByIndex(p))
			}
		}
	case reflect.Array:
		if n.Kind != ref.Arr {
			mm.fail("array")
		}
		for i, e := range n.Elems {
			if i < v.Len() {
				sub(e, v.Index(i))
			}
		}
		for i := len(n.Elems); i < v.Len(); i++ {
			v.Index(i).Set(reflect.Zero(v.Type().Elem()))
		}
	default:
		mm.merge(n, v)
	}
}

func (m *imerge) run(n *ref.Node, v reflect.Value) (failed, loop bool) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case loopErr:
			failed, loop = true, true
		case mergeErr:
			failed = true
		default:
			panic(r)
		}
	}()
	m.merge(n, v)
	return
}

// doc19 writes a document that follows the shape of the value.
func doc19(t *eng.T, b []byte, v reflect.Value, depth, steps int) []byte {
	if t.P(1, 12) {
		return append(b, "null"...)
	}
	if depth > 4 || steps > 20 || t.P(1, 25) {
		return gen.Text(t, b, &gen.J{MaxDepth: 1, MaxElems: 2, Budget: 4})
	}
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if !v.IsNil() && (v.Kind() == reflect.Ptr || v.Elem().Kind() == reflect.Ptr) {
			return doc19(t, b, v.Elem(), depth, steps+1)
		}
		if v.Kind() == reflect.Ptr {
			return doc19(t, b, reflect.Zero(v.Type().Elem()), depth+1, steps+1)
		}
	case reflect.Struct:
		b = append(b, '{')
		for i := t.Int(5); i > 0; i-- {
			k := t.Int(v.NumField())
			b = append(b, '"')
			b = append(b, v.Type().Field(k).Name...)
			b = append(b, `":`...)
			if t.P(1, 10) {
				b = append(b, ' ')
			}
			b = doc19(t, b, v.Field(k), depth+1, 0)
			if i > 1 {
				b = append(b, ',')
			}
		}
		return append(b, '}')
	case reflect.Array:
		b = append(b, '[')
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b = append(b, ',')
			}
			b = doc19(t, b, v.Index(i), depth+1, 0)
		}
		return append(b, ']')
	case reflect.Int:
		return strconv.AppendInt(b, int64(t.Int(1000)), 10)
	case reflect.String:
		return append(b, `"new"`...)
	case reflect.Map:
		return append(b, t.Str(`{}`, `{"m":1}`, `{"m":{"q":[]},"z":null}`)...)
	case reflect.Slice:
		return append(b, t.Str(`[]`, `[1]`, `[{"m":1},null]`)...)
	}
	return gen.Text(t, b, &gen.J{MaxDepth: 2, MaxElems: 2, Budget: 6})
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C19",
		Rule:        "a case is a graph of up to 12 interface cells and structs that point to each other in any way, loops included, and a document following its shape, decoded through a random entry into the graph; compared with a model on a second copy of the graph: all cells afterwards, or the loop error exactly when an interface loop is entered; non-trivial: the entry holds a pointer",
		Assumptions: []string{refNote, "the model of merging of C18", "null for an interface that holds a pointer to a pointer is a documented difference and outside the property"},
		Quick:       800000, Thorough: 50000000,
		Run: func(t *eng.T) {
			nc, nn := t.Range(1, 8), t.Range(1, 4)
			loopy := t.P(1, 4)
			var plans []iplan
			for i := 0; i < nc+3+nn*9; i++ {
				plans = append(plans, drawPlan(t, loopy && i < nc))
			}
			a, b := build19(plans, nc, nn), build19(plans, nc, nn)
			start := iplan{[]int{1, 1, 2, 10, 14}[t.Int(5)], t.Int(100)}
			va, vb := reflect.ValueOf(a.ref(start)), reflect.ValueOf(b.ref(start))
			if start.kind != 2 && start.kind != 14 && !va.Elem().IsNil() {
				t.Nontrivial()
			} else if start.kind == 2 || start.kind == 14 {
				t.Nontrivial()
			}
			cfg := jzon.NewDecoderConfig(nil)
			for k := t.Range(1, 2); k > 0; k-- {
				var doc []byte
				if t.P(1, 4) {
					doc = append(doc, " \n "...)
				}
				doc = doc19(t, doc, va.Elem(), 0, 0)
				n, st := ref.Document(doc)
				if st != ref.OK {
					t.Skip()
				}
				t.Key(doc)
				t.Key([]byte(fmt.Sprint(plans, start)))
				t.Sample(func() string { return fmt.Sprintf("plan %v start %v <- %s", plans[:nc], start, gen.Show(doc)) })
				t.Logf("nc %d nn %d plans %v start %v doc %s", nc, nn, plans, start, gen.Show(doc))
				failed, loop := (&imerge{chain: map[unsafe.Pointer]bool{}}).run(n, vb.Elem())
				e := pickEntry(t)
				err := e.f(cfg, t, doc, va.Interface())
				if (err != nil) != failed {
					t.Failf("%s: error %v, model: %v (loop %v) for %s", e.name, err, failed, loop, gen.Show(doc))
				}
				if loop {
					t.Label("loop")
					if !reason(err, jzon.ErrEfaceLooping) {
						t.Failf("%s: error %v, want the loop error for %s", e.name, err, gen.Show(doc))
					}
				}
				if failed {
					t.Label("rejected")
					return
				}
				t.Label("decoded")
				if d := ref.Diff(va.Interface(), vb.Interface()); d != "" {
					t.Failf("%s: result differs from the model at %s for %s", e.name, d, gen.Show(doc))
				}
				for i := range a.cells {
					if d := ref.Diff(a.cells[i], b.cells[i]); d != "" {
						t.Failf("%s: cell %d differs from the model at %s for %s", e.name, i, d, gen.Show(doc))
					}
				}
				if d := ref.Diff(a.nodes, b.nodes); d != "" {
					t.Failf("%s: nodes differ from the model at %s for %s", e.name, d, gen.Show(doc))
				}
			}
		},
	})
}
