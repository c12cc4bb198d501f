package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/zerosnake0/jzon"

	"verif/eng"
	"verif/gen"
	"verif/ref"
)

// ---- recursive destinations

type (
	nestS  []nestS
	nestM  map[string]nestM
	nestA  [1]*nestA
	nestO1 struct{ A *nestO1 }
	nestO3 struct {
		X int
		A *nestO3
		L []nestO3
	}
	nestO12 struct {
		X0, X1, X2, X3, X4, X5, X6, X7, X8 int
		A                                  *nestO12
		L                                  []*nestO12
		M                                  map[string]*nestO12
		R                                  [2]*nestO12
		O                                  *nestO3
	}
)

// a step wraps a text in one more level for a type
type nestStep struct {
	pre, post string
	levels    int
	next      int // index of the type below
}

var nestTypes = []struct {
	ty    reflect.Type
	steps []nestStep
	leaf  []string
}{
	{reflect.TypeOf(nestS{}), []nestStep{{"[", "]", 1, 0}, {"[[],", "]", 1, 0}, {"[ null , ", " ]", 1, 0}}, []string{"[]", "null"}},
	{reflect.TypeOf(nestM{}), []nestStep{{`{"k":`, "}", 1, 1}, {`{"a":null,"k":`, "}", 1, 1}, {`{"k":`, `,"z":{}}`, 1, 1}}, []string{"{}", "null"}},
	{reflect.TypeOf(nestA{}), []nestStep{{"[", "]", 1, 2}, {"[", ",1,{}]", 1, 2}}, []string{"[]", "null"}},
	{reflect.TypeOf(nestO1{}), []nestStep{{`{"A":`, "}", 1, 3}, {`{"x":[1],"a":`, "}", 1, 3}}, []string{"{}", "null"}},
	{reflect.TypeOf(nestO3{}), []nestStep{{`{"A":`, "}", 1, 4}, {`{"X":1,"A":`, `,"x":2}`, 1, 4}, {`{"L":[`, `]}`, 2, 4}, {`{"L":[{},`, `,{"X":3}]}`, 2, 4}}, []string{"{}", `{"X":5}`, "null"}},
	{reflect.TypeOf(nestO12{}), []nestStep{{`{"A":`, "}", 1, 5}, {`{"L":[`, `]}`, 2, 5}, {`{"M":{"k":`, `}}`, 2, 5}, {`{"R":[null,`, `]}`, 2, 5}, {`{"R":[{},`, `,{"X1":7},[1]]}`, 2, 5}, {`{"X3":4,"unknown":{},"A":`, `}`, 1, 5}, {`{"O":`, `}`, 1, 4}}, []string{"{}", `{"X8":5}`, "null"}},
}

const nestLimit = 10000

// c34Decode decodes documents nested around the limit.
func c34Decode(t *eng.T) {
	i := t.Int(len(nestTypes))
	root := nestTypes[i].ty
	depth := t.Size(300)
	switch t.W(4, 2, 3, 1) {
	case 1:
		depth = t.Range(900, 3000)
	case 2:
		depth = nestLimit + t.Range(-3, 5)
	case 3:
		depth = nestLimit + t.Range(3, 3000)
	}
	// a pattern of steps, repeated
	var pat []int
	for k := t.Range(1, 6); k > 0; k-- {
		pat = append(pat, t.Int(7*6*5*4))
	}
	var pre strings.Builder
	var posts []string
	levels := 0
	for k := 0; levels < depth; k++ {
		nt := &nestTypes[i]
		s := nt.steps[pat[k%len(pat)]%len(nt.steps)]
		if s.levels > depth-levels {
			s = nt.steps[0]
		}
		pre.WriteString(s.pre)
		posts = append(posts, s.post)
		levels += s.levels
		i = s.next
	}
	leaf := nestTypes[i].leaf
	l := leaf[t.Int(len(leaf))]
	pre.WriteString(l)
	depth = levels // levels that hold something, at least
	for k := len(posts) - 1; k >= 0; k-- {
		pre.WriteString(posts[k])
	}
	doc := []byte(pre.String())
	levels = textDepth(doc) // all levels
	t.Sample(func() string { return fmt.Sprintf("%d levels into %s: %s", levels, typeStr(root), gen.Show(doc)) })
	if levels > 100 {
		t.Nontrivial()
	}
	t.Key([]byte(fmt.Sprint(root, levels, len(doc))))
	cfg := jzon.DefaultDecoderConfig
	a, b := reflect.New(root), reflect.New(root)
	e := pickEntry(t)
	err := e.f(cfg, t, doc, a.Interface())
	switch {
	case levels <= nestLimit:
		t.Label("within the limit")
		if err != nil {
			t.Failf("%s: %v for %d levels into %s", e.name, err, levels, typeStr(root))
		}
		if err := json.Unmarshal(doc, b.Interface()); err != nil {
			t.Failf("reference: %v", err)
		}
		if d := ref.Diff(a.Interface(), b.Interface()); d != "" {
			if len(d) > 300 {
				d = "…" + d[len(d)-300:]
			}
			t.Failf("%s: %d levels into %s: differs at %s", e.name, levels, typeStr(root), d)
		}
	case depth > nestLimit+1:
		t.Label("beyond the limit")
		if err == nil {
			t.Failf("%s: no error for %d levels into %s", e.name, levels, typeStr(root))
		}
		if !reason(err, jzon.ErrMaxDepth) {
			t.Failf("%s: %.300s for %d levels into %s", e.name, err.Error(), levels, typeStr(root))
		}
	default:
		t.Label("at the limit")
	}
	// the same document without a type
	if t.P(1, 3) {
		it := jzon.NewIterator()
		defer it.Release()
		it.ResetBytes(doc)
		var err error
		what := "Skip"
		switch t.Int(4) {
		case 0:
			err = it.Skip()
		case 1:
			what = "SkipRaw"
			var raw []byte
			if raw, err = it.SkipRaw(); err == nil && !bytes.Equal(raw, doc) {
				t.Failf("SkipRaw: %d of %d bytes", len(raw), len(doc))
			}
		case 2:
			what = "Read"
			var v interface{}
			if v, err = it.Read(); err == nil {
				if n, m := ifaceDepth(v), textDepth(doc); n != m {
					t.Failf("Read: depth %d, want %d", n, m)
				}
			}
		default:
			what = "RawMessage"
			var raw json.RawMessage
			err = it.ReadVal(&raw)
		}
		if err != nil {
			t.Failf("%s: %.300s for %d levels", what, err.Error(), levels)
		}
	}
}

// ifaceDepth is the greatest depth of a generic value.
func ifaceDepth(v interface{}) int {
	m := 0
	switch x := v.(type) {
	case []interface{}:
		for _, e := range x {
			if d := ifaceDepth(e); d > m {
				m = d
			}
		}
	case map[string]interface{}:
		for _, e := range x {
			if d := ifaceDepth(e); d > m {
				m = d
			}
		}
	default:
		return 0
	}
	return m + 1
}

func textDepth(b []byte) int {
	d, m := 0, 0
	for _, c := range b { // no brackets in the strings used here
		switch c {
		case '[', '{':
			if d++; d > m {
				m = d
			}
		case ']', '}':
			d--
		}
	}
	return m
}

// c34Wide decodes many values that are not deep.
func c34Wide(t *eng.T) {
	i := t.Int(len(nestTypes))
	root := nestTypes[i].ty
	nt := &nestTypes[i]
	s := nt.steps[t.Int(len(nt.steps))]
	l := nestTypes[s.next].leaf
	one := s.pre + l[t.Int(len(l))] + s.post
	n := t.Range(10001, 12000)
	t.Nontrivial()
	t.Key([]byte(fmt.Sprint(one, n)))
	t.Sample(func() string { return fmt.Sprintf("%d times %s", n, one) })
	if t.Bool() {
		t.Label("many elements")
		doc := []byte("[" + strings.Repeat(one+",", n-1) + one + "]")
		v := reflect.New(reflect.SliceOf(root))
		if err := jzon.Unmarshal(doc, v.Interface()); err != nil {
			t.Failf("%v for an array of %d %s into %s", err, n, one, typeStr(root))
		}
		if v.Elem().Len() != n {
			t.Failf("%d of %d elements", v.Elem().Len(), n)
		}
		return
	}
	t.Label("many values")
	doc := []byte(strings.Repeat(one+"\n", n))
	d := jzon.NewDecoder(gen.Chunked(t, doc))
	defer d.Release()
	v := reflect.New(root)
	for k := 0; k < n; k++ {
		if err := d.Decode(v.Interface()); err != nil {
			t.Failf("%v for value %d of a stream of %s into %s", err, k, one, typeStr(root))
		}
	}
}

// c34Deep reads very deep documents without a type.
func c34Deep(t *eng.T) {
	n := t.Range(3000, 40000)
	switch t.Int(3) {
	case 0:
		n = 65536 + t.Range(-3, 3)
	case 1:
		n = t.Range(60000, 200000)
	}
	bits := t.U64()
	period := t.Range(1, 64)
	arr := func(i int) bool { return bits>>(uint(i%period))&1 == 1 }
	b := make([]byte, 0, n*8)
	for i := 0; i < n; i++ {
		if arr(i) {
			b = append(b, '[')
		} else {
			b = append(b, `{"k":`...)
		}
	}
	b = append(b, '1')
	bad := -1
	if t.Bool() {
		bad = t.Int(n)
	}
	for i := n - 1; i >= 0; i-- {
		if arr(i) != (i == bad) {
			b = append(b, ']')
		} else {
			b = append(b, '}')
		}
	}
	t.Nontrivial()
	t.Key([]byte(fmt.Sprint(n, bits, period, bad)))
	t.Sample(func() string { return fmt.Sprintf("%d levels, wrong end of level %d", n, bad) })
	it := jzon.NewIterator()
	defer it.Release()
	if t.Bool() {
		it.ResetBytes(b)
	} else {
		it.Reset(bytes.NewReader(b))
	}
	var err error
	what := ""
	switch t.Int(4) {
	case 0:
		what = "Skip"
		err = it.Skip()
	case 1:
		what = "SkipRaw"
		var raw []byte
		if raw, err = it.SkipRaw(); err == nil && !bytes.Equal(raw, b) {
			t.Failf("SkipRaw: %d of %d bytes", len(raw), len(b))
		}
	case 2:
		what = "Valid"
		if !it.Valid(b) {
			err = fmt.Errorf("not valid")
		}
	default:
		what = "Read"
		var v interface{}
		v, err = it.Read()
		if err != nil {
			break
		}
		for i := 0; i < n; i++ {
			switch x := v.(type) {
			case []interface{}:
				if !arr(i) || len(x) != 1 {
					t.Failf("Read: wrong value at level %d of %d", i, n)
				}
				v = x[0]
			case map[string]interface{}:
				if arr(i) || len(x) != 1 {
					t.Failf("Read: wrong value at level %d of %d", i, n)
				}
				v = x["k"]
			default:
				t.Failf("Read: %T at level %d of %d", v, i, n)
			}
		}
		if v != 1.0 {
			t.Failf("Read: %v in place of 1", v)
		}
	}
	if (err == nil) != (bad < 0) {
		t.Failf("%s: error %v for %d levels, wrong end of level %d", what, errStr(err), n, bad)
	}
}

// ---- values

type graphNode struct {
	V int                    `json:"v,omitempty"`
	P *graphNode             `json:"p,omitempty"`
	Q **graphNode            `json:"q,omitempty"`
	L []*graphNode           `json:"l,omitempty"`
	S []graphNode            `json:"s,omitempty"`
	M map[string]*graphNode  `json:"m,omitempty"`
	N map[string][]graphNode `json:"n,omitempty"`
	I interface{}            `json:"i,omitempty"`
	A [1]*graphNode          `json:"a"`
	W fmt.Stringer           `json:"w,omitempty"`
	H graphHead              `json:"h"`
}

// graphHead begins with a part that can be pointed to on its own
type graphHead struct {
	In graphIn    `json:"in"`
	PI *graphIn   `json:"pi,omitempty"`
	PH *graphHead `json:"ph,omitempty"`
}
type graphIn struct {
	Z int         `json:"z"`
	Y interface{} `json:"y,omitempty"`
}

type prefixS []prefixS

func (*graphNode) String() string { return "" }

// link makes b reachable from a, in one of many ways.
func link(t *eng.T, kind int, a, b *graphNode) {
	switch kind {
	case 0:
		a.P = b
	case 1:
		a.Q = &b
	case 2:
		a.L = append(a.L, b)
	case 3:
		a.S = append(a.S, graphNode{P: b})
	case 4:
		a.M = map[string]*graphNode{"k": b}
	case 5:
		a.N = map[string][]graphNode{"k": {{L: []*graphNode{b}}}}
	case 6:
		a.I = b
	case 7:
		a.I = []interface{}{b}
	case 8:
		a.I = map[string]interface{}{"k": b}
	case 9:
		var x interface{} = b
		a.I = &x
	case 10:
		a.A[0] = b
	case 11:
		a.W = b
	case 12:
		a.I = graphNode{A: [1]*graphNode{b}} // a boxed copy
	case 13:
		a.I = &[]interface{}{map[string]*graphNode{"k": b}}
	default:
		a.H.In.Y = b
	}
}

const linkKinds = 15

// sharedParts lists values of all kinds, each several times.
func sharedParts(t *eng.T) []interface{} {
	var x interface{} = 1
	i := 2
	pi := &i
	m := map[string]interface{}{"a": 1}
	s := []interface{}{m, nil}
	g := &graphNode{V: 7}
	var str fmt.Stringer = g
	parts := []interface{}{
		&x, pi, &pi, m, &m, s, &s, g, &g, &str,
		map[string]*graphNode{"k": g},
		map[int][]*graphNode{3: {g, g}},
		[]*graphNode{g, g},
		&[2]*graphNode{g, g},
		[]map[string]interface{}{m, m},
		[]fmt.Stringer{g, str},
		map[string]fmt.Stringer{"a": str},
		&prefixS{{}, nil},
		prefixS{{}},
		nestM{"a": {}},
		&graphHead{},
		graphHead{},
	}
	var out []interface{}
	for k := t.Range(2, 8); k > 0; k-- {
		p := parts[t.Int(len(parts))]
		out = append(out, p)
		switch t.Int(4) {
		case 0:
			out = append(out, p)
		case 1:
			out = append(out, []interface{}{p, p})
		case 2:
			m := map[string]interface{}{"p": []interface{}{p, p}}
			out = append(out, m, p, m)
		}
	}
	return out
}

func c34Value(t *eng.T) {
	n := t.Range(1, 30)
	switch t.W(3, 2, 2) {
	case 1:
		n = t.Range(300, 1100)
	case 2:
		n = t.Range(1000, 4000)
	}
	nodes := make([]*graphNode, n)
	for i := range nodes {
		nodes[i] = &graphNode{}
		if t.P(1, 50) {
			nodes[i].V = i + 1
		}
	}
	var pat []int
	for k := t.Range(1, 5); k > 0; k-- {
		pat = append(pat, t.Int(linkKinds))
	}
	for i := 0; i+1 < n; i++ {
		link(t, pat[i%len(pat)], nodes[i], nodes[i+1])
	}
	// some shared parts: not cycles
	for k := t.Int(3); k > 0; k-- {
		i := t.Int(n)
		h := &nodes[i].H
		switch t.Int(9) {
		case 7: // the same values side by side, near the end
			if last := nodes[n-1]; last.I == nil {
				last.I = sharedParts(t)
			}
		case 8:
			if last := nodes[n-1]; last.N == nil && last.L == nil {
				b := &graphNode{V: 3}
				s := []graphNode{{V: 2}, {P: b}}
				last.N = map[string][]graphNode{"x": s}
				last.L = []*graphNode{b, b, {N: last.N}, {N: last.N}, {L: []*graphNode{b}}}
			}
		case 4: // slices inside themselves that end before they come to themselves
			if nodes[i].I == nil {
				x := make([]interface{}, t.Range(1, 6))
				for k := range x {
					x[k] = x[:k:len(x)]
				}
				nodes[i].I = x
			}
		case 5:
			if nodes[n-1].S == nil {
				x := make([]graphNode, t.Range(1, 5))
				for k := range x {
					x[k].S = x[:k]
				}
				nodes[n-1].S = x
			}
		case 6:
			if h.In.Y == nil {
				x := make(prefixS, t.Range(1, 6))
				for k := range x {
					x[k] = x[:k]
				}
				h.In.Y = x
			}
		case 0: // pointer to a part at the same address
			h.PI = &h.In
		case 1:
			x := &graphHead{}
			x.PI = &x.In
			h.PH = x
		case 2: // the next node once more
			if i+1 < n && len(nodes[i].L) == 0 && n-i < 600 {
				nodes[i].L = append(nodes[i].L, nodes[i+1], nodes[i+1])
			}
		default:
			x := &graphHead{}
			h.PH = x
			if h.In.Y == nil {
				h.In.Y = x
			}
		}
	}
	if n > 900 {
		t.Nontrivial()
	}
	cyclic := t.Bool()
	if cyclic {
		t.Label("cyclic")
		i := n - 1 - t.Int(1+t.Int(n)) // mostly near the end
		j := t.Int(i + 1)
		k := t.Int(linkKinds)
		if i+1 < n && k == pat[i%len(pat)] {
			k = (k + 1) % linkKinds
		}
		link(t, k, nodes[i], nodes[j])
		if i+1 < n { // the link may have replaced the one to the next node
			n = i + 1
		}
		t.Nontrivial()
	} else {
		t.Label("finite")
	}
	var v interface{} = nodes[0]
	switch t.Int(5) {
	case 0:
		v = *nodes[0]
	case 1:
		v = []interface{}{nodes[0], nil}
	case 2:
		v = map[string]interface{}{"r": nodes[0]}
	}
	cfg := jzon.NewEncoderConfig(&jzon.EncoderOption{EscapeHTML: true})
	if t.Bool() {
		cfg = jzon.DefaultEncoderConfig
	}
	e := encEntries[t.W(5, 2, 2, 1)]
	t.Sample(func() string { return fmt.Sprintf("chain of %d, links %v, cyclic %v", n, pat, cyclic) })
	t.Key([]byte(fmt.Sprint(n, pat, cyclic)))
	got, err := e.f(t, cfg, true, v)
	if cyclic {
		if err != jzon.ErrCyclicValue {
			t.Failf("%s: error %v for a cyclic value (chain of %d, links %v)", e.name, err, n, pat)
		}
		return
	}
	if err != nil {
		t.Failf("%s: %v for a value without cycles (chain of %d, links %v)", e.name, err, n, pat)
	}
	want, err := json.Marshal(v)
	if err != nil {
		t.Failf("reference: %v", err)
	}
	if d := sameJSON(got, want, false); d != "" {
		if len(d) > 2000 {
			d = d[:2000]
		}
		t.Failf("%s of a chain of %d (links %v): differs\n%s", e.name, n, pat, d)
	}
}

// selfTypes: values of types that contain themselves without a struct.
func c34Self(t *eng.T) {
	type sl []sl
	type mp map[string]mp
	type ar [1]*ar
	n := t.Range(1, 40)
	if t.P(1, 3) {
		n = t.Range(990, 2200)
	}
	cyclic := t.Bool()
	back := t.Int(n) // distance from the end
	var v interface{}
	kind := t.Int(6)
	switch kind {
	case 0:
		all := make([]sl, n)
		for i := range all {
			all[i] = sl{nil, sl{}}[:t.Range(1, 2)]
		}
		for i := 0; i+1 < n; i++ {
			all[i][0] = all[i+1]
		}
		if cyclic {
			all[n-1][0] = all[n-1-back]
		}
		v = all[0]
	case 1:
		all := make([]mp, n)
		for i := range all {
			all[i] = mp{}
		}
		for i := 0; i+1 < n; i++ {
			all[i]["k"] = all[i+1]
		}
		if cyclic {
			all[n-1]["k"] = all[n-1-back]
		}
		v = all[0]
	case 2:
		all := make([]ar, n)
		for i := 0; i+1 < n; i++ {
			all[i][0] = &all[i+1]
		}
		if cyclic {
			all[n-1][0] = &all[n-1-back]
		}
		v = all[0]
		if t.Bool() {
			v = &all[0]
		}
	case 3:
		all := make([][]interface{}, n)
		for i := range all {
			all[i] = make([]interface{}, 1)
		}
		for i := 0; i+1 < n; i++ {
			all[i][0] = all[i+1]
		}
		if cyclic {
			all[n-1][0] = all[n-1-back]
		}
		v = all[0]
	case 4:
		all := make([]interface{}, n)
		for i := 0; i+1 < n; i++ {
			all[i] = &all[i+1]
		}
		if cyclic {
			all[n-1] = &all[n-1-back]
		}
		v = &all[0]
	default:
		// slices of one array with different lengths: each is contained in
		// the one before
		base := make([]interface{}, n)
		for i := range base {
			base[i] = i
			if i > 0 {
				base[i] = base[:i]
			}
		}
		if n > 12 {
			n = 12
		}
		v = base[:n]
		cyclic = false
		// base[:i] contains base[1:i] which contain base[:1].. : a DAG
	}
	if n > 900 || cyclic {
		t.Nontrivial()
	}
	if cyclic {
		t.Label("cyclic")
	} else {
		t.Label("finite")
	}
	t.Key([]byte(fmt.Sprint(kind, n, cyclic, back)))
	t.Sample(func() string { return fmt.Sprintf("kind %d, %d levels, cyclic %v", kind, n, cyclic) })
	e := encEntries[t.W(5, 2, 2, 1)]
	got, err := e.f(t, jzon.DefaultEncoderConfig, true, v)
	if cyclic {
		if err != jzon.ErrCyclicValue {
			t.Failf("%s: error %v for a cyclic value of kind %d with %d levels", e.name, err, kind, n)
		}
		return
	}
	want, wantErr := json.Marshal(v)
	if err != nil || wantErr != nil {
		t.Failf("%s: %v (%v) for a finite value of kind %d with %d levels", e.name, err, wantErr, kind, n)
	}
	if d := sameJSON(got, want, false); d != "" {
		t.Failf("%s of kind %d with %d levels: differs\n%.2000s", e.name, kind, n, d)
	}
}

// c34Many encodes one value many times side by side.
func c34Many(t *eng.T) {
	x := &graphNode{V: 1}
	k := t.Int(linkKinds)
	link(t, k, x, &graphNode{V: 2})
	n := t.Range(1001, 3000)
	one, err := json.Marshal(x)
	if err != nil {
		t.Failf("reference: %v", err)
	}
	t.Nontrivial()
	t.Key([]byte(fmt.Sprint(k, n)))
	t.Sample(func() string { return fmt.Sprintf("%d times %s", n, one) })
	var got []byte
	if t.Bool() {
		t.Label("many elements")
		l := make([]interface{}, n)
		for i := range l {
			l[i] = x
		}
		got, err = jzon.Marshal(l)
		if err != nil {
			t.Failf("%v for %d times %s", err, n, one)
		}
	} else {
		t.Label("many values")
		var buf bytes.Buffer
		s := jzon.NewStreamer()
		defer s.Release()
		s.Reset(&buf)
		s.ArrayStart()
		for i := 0; i < n; i++ {
			s.Value(x)
		}
		s.ArrayEnd()
		if err := s.Flush(); err != nil {
			t.Failf("%v for %d times %s", err, n, one)
		}
		got = buf.Bytes()
	}
	want := "[" + strings.Repeat(string(one)+",", n-1) + string(one) + "]"
	if string(got) != want {
		t.Failf("%d times %s: differs", n, one)
	}
}

func init() {
	eng.Register(&eng.Prop{
		ID:          "C34",
		Rule:        "a case is a document nested up to and beyond 10000 levels decoded into a recursive type (slices, arrays, maps, structs of all sizes, mixed) and read without a type; or a document of up to 200000 levels, maybe with one wrong closing bracket, read without a type; or thousands of shallow values decoded one after the other; or a chain or graph of up to 4000 values linked by pointers, slices, maps, arrays and interfaces, with shared parts, closed to a cycle or not; or one value encoded thousands of times; non-trivial: more than 100 levels, a chain of more than 900, a cycle, or thousands of values",
		Assumptions: []string{stdNote},
		Quick:       12000, Thorough: 1000000,
		Run: func(t *eng.T) {
			switch t.W(40, 10, 80, 30, 10, 3) {
			case 0:
				c34Decode(t)
			case 1:
				c34Wide(t)
			case 2:
				c34Value(t)
			case 3:
				c34Self(t)
			case 4:
				c34Many(t)
			default:
				c34Deep(t)
				t.Label("very deep")
			}
		},
	})
}
