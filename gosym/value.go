package main

// Symbolic values, memory objects and the forkable heap.

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KUndef Kind = iota
	KInt        // n (x==nil) or x.(*BV)
	KBool       // B in n
	KFloat      // bits in n
	KStr        // x: string or *SymStr
	KPtr        // x: *Obj (offset n), *SymPtr, or nil
	KSlice      // x: *Sl or nil
	KIface      // x: *If or nil
	KFunc       // x: *Fn or nil
	KMap        // x: *Obj or nil
	KChan       // x: *Obj or nil
	KAgg        // x: []Value (flattened cells)
	KTuple      // x: []Value
	KHost       // x: anything (host-side object)
)

type Value struct {
	k Kind
	w uint8
	n uint64
	x any
}

// SymStr is a string of known length with symbolic bytes, or an opaque
// (formatted) text whose content is not modelled.
type SymStr struct {
	b      []Value
	opaque bool
	min    int // least length of an opaque string
	id     int
}

type Sl struct {
	obj           *Obj
	off, len, cap int // in elements; off in cells
}

type If struct {
	t types.Type
	v Value
}

type Fn struct {
	f    *ssa.Function
	bind []Value
	host func(e *Eng, fs *FS, args []Value) []Outcome
	name string
}

// SymPtr is a pointer to element idx (symbolic) of an array region.
type SymPtr struct {
	obj   *Obj
	base  int // cell of element 0
	idx   *BV
	n     int // number of elements
	scale int // cells per element
	sub   int // cell offset inside the element
}

type Obj struct {
	id    int
	cells []Value
	owner *HNode
	name  string
	tid   int // creating thread
	kind  byte
}

type MapD struct {
	idx  map[string]int
	keys []Value
	vals []Value
	n    int // live entries
}

type msg struct {
	v   Value
	tid int
	vc  []int32
}
type ChanD struct {
	q      []msg
	cap    int
	closed bool
}

func (d *MapD) clone() *MapD {
	n := &MapD{idx: make(map[string]int, len(d.idx)), keys: append([]Value(nil), d.keys...), vals: append([]Value(nil), d.vals...), n: d.n}
	for k, v := range d.idx {
		n.idx[k] = v
	}
	return n
}

func VInt(w int, n uint64) Value { return Value{k: KInt, w: uint8(w), n: n & mask(w)} }
func VBool(b B) Value            { return Value{k: KBool, n: uint64(b)} }
func VBoolC(b bool) Value {
	if b {
		return VBool(T)
	}
	return VBool(F)
}
func VStr(s string) Value { return Value{k: KStr, x: s} }
func (v Value) B() B      { return B(v.n) }
func VTerm(t *BV) Value {
	if t.op == vConst {
		return VInt(t.w, t.k)
	}
	return Value{k: KInt, w: uint8(t.w), x: t}
}

func (e *Eng) term(v Value) *BV {
	if v.x == nil {
		return e.c.Const(int(v.w), v.n)
	}
	return v.x.(*BV)
}

func (v Value) conc() bool { return v.x == nil }

func (v Value) String() string {
	switch v.k {
	case KUndef:
		return "undef"
	case KInt:
		if v.x == nil {
			return fmt.Sprintf("%d:%d", v.n, v.w)
		}
		return fmt.Sprintf("sym#%d:%d", v.x.(*BV).id, v.w)
	case KBool:
		switch v.B() {
		case T:
			return "true"
		case F:
			return "false"
		}
		return fmt.Sprintf("b%d", v.n)
	case KStr:
		if s, ok := v.x.(string); ok {
			return fmt.Sprintf("%q", s)
		}
		return fmt.Sprintf("symstr(%d)", len(v.x.(*SymStr).b))
	case KPtr:
		if v.x == nil {
			return "nilptr"
		}
		if o, ok := v.x.(*Obj); ok {
			return fmt.Sprintf("&%s#%d+%d", o.name, o.id, v.n)
		}
		return "symptr"
	case KSlice:
		if v.x == nil {
			return "nilslice"
		}
		s := v.x.(*Sl)
		return fmt.Sprintf("slice#%d[%d:%d]", s.obj.id, s.off, s.len)
	case KIface:
		if v.x == nil {
			return "nil"
		}
		i := v.x.(*If)
		return fmt.Sprintf("iface(%v,%v)", i.t, i.v)
	case KFunc:
		if v.x == nil {
			return "nilfunc"
		}
		return "func " + fmt.Sprint(v.x.(*Fn).f)
	case KAgg, KTuple:
		var s []string
		for _, c := range v.x.([]Value) {
			s = append(s, c.String())
		}
		return "{" + strings.Join(s, " ") + "}"
	}
	return fmt.Sprintf("kind%d", v.k)
}

// ---------- strings ----------

func strLen(v Value) int {
	if v.x == nil {
		return 0
	}
	if s, ok := v.x.(string); ok {
		return len(s)
	}
	ss := v.x.(*SymStr)
	if ss.opaque {
		unsup("length of a formatted (opaque) string")
	}
	return len(ss.b)
}

func strByte(v Value, i int) Value {
	if s, ok := v.x.(string); ok {
		return VInt(8, uint64(s[i]))
	}
	return v.x.(*SymStr).b[i]
}

func strBytes(v Value) []Value {
	n := strLen(v)
	out := make([]Value, n)
	for i := range out {
		out[i] = strByte(v, i)
	}
	return out
}

func mkStr(b []Value) Value {
	conc := true
	for _, x := range b {
		if x.x != nil {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, x := range b {
			bs[i] = byte(x.n)
		}
		return VStr(string(bs))
	}
	return Value{k: KStr, x: &SymStr{b: b}}
}

func subStr(v Value, lo, hi int) Value {
	if s, ok := v.x.(string); ok {
		return VStr(s[lo:hi])
	}
	if v.x == nil {
		return VStr("")
	}
	return mkStr(v.x.(*SymStr).b[lo:hi])
}

func isOpaque(v Value) bool {
	s, ok := v.x.(*SymStr)
	return ok && s.opaque
}

// ---------- heap ----------

type cellKey struct {
	o   *Obj
	off int
}

type HNode struct {
	parent *HNode
	kids   int
	depth  int
	delta  map[cellKey]Value
	fwd    *HNode
}

func hfind(h *HNode) *HNode {
	for h != nil && h.fwd != nil {
		if h.fwd.fwd != nil {
			h.fwd = h.fwd.fwd
		}
		h = h.fwd
	}
	return h
}

// collapse absorbs the state's leaf into ancestors that have no other child.
func (st *State) collapse() {
	for {
		h := st.heap
		p := h.parent
		if p == nil || p.kids != 1 {
			return
		}
		if p.parent == nil {
			for k, v := range h.delta {
				k.o.cells[k.off] = v
			}
		} else {
			if len(p.delta) < len(h.delta) && false {
				_ = 0
			}
			for k, v := range h.delta {
				if hfind(k.o.owner) == p {
					k.o.cells[k.off] = v
				} else {
					if p.delta == nil {
						p.delta = map[cellKey]Value{}
					}
					p.delta[k] = v
				}
			}
		}
		p.kids = 0
		h.fwd = p
		h.delta = nil
		st.heap = p
	}
}

func (st *State) rd(o *Obj, off int) Value {
	for h := st.heap; h.parent != nil; h = h.parent {
		if h.delta != nil {
			if v, ok := h.delta[cellKey{o, off}]; ok {
				return v
			}
		}
	}
	return o.cells[off]
}

func (st *State) dense(o *Obj) bool {
	h := st.heap
	if h.kids != 0 {
		panic("write to frozen heap node")
	}
	if h.parent == nil {
		return true
	}
	if h.parent.kids == 1 {
		st.collapse()
		h = st.heap
		if h.parent == nil {
			return true
		}
	}
	return o.owner != nil && hfind(o.owner) == h
}

func (st *State) wr(o *Obj, off int, v Value) {
	if st.dense(o) {
		o.cells[off] = v
		return
	}
	h := st.heap
	if h.delta == nil {
		h.delta = map[cellKey]Value{}
	}
	h.delta[cellKey{o, off}] = v
}

// detach drops a dead leaf, releasing ancestors without other children.
func hdetach(h, stop *HNode) {
	for h != stop && h.parent != nil {
		p := h.parent
		p.kids--
		if p.kids > 0 || p == stop {
			return
		}
		h = p
	}
}

func (st *State) kill() {
	if st.heap != nil {
		hdetach(st.heap, nil)
		st.heap = nil
	}
}

// fork returns a second state sharing history with st.
func (st *State) fork() *State {
	st.collapse()
	h := st.heap
	a := &HNode{parent: h, depth: h.depth + 1}
	b := &HNode{parent: h, depth: h.depth + 1}
	h.kids = 2
	n := *st
	st.heap = a
	n.heap = b
	return &n
}

func hlca(a, b *HNode) *HNode {
	for a.depth > b.depth {
		a = a.parent
	}
	for b.depth > a.depth {
		b = b.parent
	}
	for a != b {
		a, b = a.parent, b.parent
	}
	return a
}

// heapDelta collects the effective cell changes of leaf h relative to l, and
// the set of nodes on the path.
func heapDelta(h, l *HNode) map[cellKey]Value {
	if h.parent == l {
		return h.delta
	}
	out := map[cellKey]Value{}
	for n := h; n != l; n = n.parent {
		for k, v := range n.delta {
			if _, ok := out[k]; !ok {
				out[k] = v
			}
		}
	}
	return out
}

func rdFrom(h *HNode, o *Obj, off int) Value {
	for ; h.parent != nil; h = h.parent {
		if v, ok := h.delta[cellKey{o, off}]; ok {
			return v
		}
	}
	return o.cells[off]
}

func under(o *Obj, h, l *HNode) bool {
	if o.owner == nil {
		return false
	}
	w := hfind(o.owner)
	for n := h; n != l; n = n.parent {
		if n == w {
			return true
		}
	}
	return false
}

// mergeHeap merges leaf b into a (condition c selects a). ok=false leaves both untouched.
func (e *Eng) mergeHeap(a, b *State, c B) bool {
	l := hlca(a.heap, b.heap)
	if l == a.heap || l == b.heap {
		panic("mergeHeap: state heap is not a leaf")
	}
	da, db := heapDelta(a.heap, l), heapDelta(b.heap, l)
	res := make(map[cellKey]Value, len(da)+len(db))
	for k, va := range da {
		if under(k.o, a.heap, l) {
			res[k] = va
			continue
		}
		vb, ok := db[k]
		if !ok {
			vb = rdFrom(l, k.o, k.off)
		}
		m, ok := e.mergeVal(c, va, vb)
		if !ok {
			e.noteNoMerge("heap", k.o, va, vb)
			return false
		}
		res[k] = m
	}
	for k, vb := range db {
		if _, ok := da[k]; ok {
			continue
		}
		if under(k.o, b.heap, l) {
			res[k] = vb
			continue
		}
		m, ok := e.mergeVal(c, rdFrom(l, k.o, k.off), vb)
		if !ok {
			e.noteNoMerge("heap", k.o, rdFrom(l, k.o, k.off), vb)
			return false
		}
		res[k] = m
	}
	n := &HNode{parent: l, depth: l.depth + 1, delta: res}
	l.kids++
	ha, hb := a.heap, b.heap
	hdetach(ha, l)
	hdetach(hb, l)
	// ownership of objects allocated in the merged leaves (and dead path nodes)
	for _, h := range []*HNode{ha, hb} {
		for x := h; x != l; x = x.parent {
			if x.kids == 0 {
				x.fwd = n
			}
		}
	}
	a.heap = n
	b.heap = nil
	a.collapse()
	return true
}

// ---------- merging of values ----------

func (e *Eng) mergeVal(c B, a, b Value) (Value, bool) {
	if a.k != b.k {
		if a.k == KUndef || b.k == KUndef {
			return Value{}, a.k == b.k
		}
		return Value{}, false
	}
	switch a.k {
	case KUndef:
		return a, true
	case KInt:
		if a.x == nil && b.x == nil && a.n == b.n {
			return a, true
		}
		if a.w != b.w {
			return Value{}, false
		}
		return VTerm(e.c.Ite(c, e.term(a), e.term(b))), true
	case KBool:
		if a.n == b.n {
			return a, true
		}
		return VBool(e.c.Mux(c, a.B(), b.B())), true
	case KFloat:
		return a, a.n == b.n
	case KStr:
		if a.x == b.x {
			return a, true
		}
		if isOpaque(a) || isOpaque(b) {
			return opaque(min(minLen(a), minLen(b))), true
		}
		if strLen(a) != strLen(b) {
			return Value{}, false
		}
		n := strLen(a)
		bs := make([]Value, n)
		for i := range bs {
			m, ok := e.mergeVal(c, strByte(a, i), strByte(b, i))
			if !ok {
				return Value{}, false
			}
			bs[i] = m
		}
		return mkStr(bs), true
	case KPtr:
		if a.n == b.n && a.x == b.x {
			return a, true
		}
		return Value{}, false
	case KSlice:
		if a.x == b.x {
			return a, true
		}
		if a.x == nil || b.x == nil {
			return Value{}, false
		}
		x, y := a.x.(*Sl), b.x.(*Sl)
		return a, *x == *y
	case KIface:
		if a.x == nil || b.x == nil {
			return a, a.x == b.x
		}
		x, y := a.x.(*If), b.x.(*If)
		if x.t != y.t {
			return Value{}, false
		}
		m, ok := e.mergeVal(c, x.v, y.v)
		if !ok {
			return Value{}, false
		}
		return Value{k: KIface, x: &If{t: x.t, v: m}}, true
	case KFunc:
		if a.x == b.x {
			return a, true
		}
		if a.x == nil || b.x == nil {
			return Value{}, false
		}
		x, y := a.x.(*Fn), b.x.(*Fn)
		if x.f != y.f || x.f == nil || len(x.bind) != len(y.bind) {
			return Value{}, false
		}
		bd := make([]Value, len(x.bind))
		for i := range bd {
			m, ok := e.mergeVal(c, x.bind[i], y.bind[i])
			if !ok {
				return Value{}, false
			}
			bd[i] = m
		}
		return Value{k: KFunc, x: &Fn{f: x.f, bind: bd, name: x.name}}, true
	case KMap, KChan:
		return a, a.x == b.x
	case KAgg, KTuple:
		x, y := a.x.([]Value), b.x.([]Value)
		if len(x) != len(y) {
			return Value{}, false
		}
		out := make([]Value, len(x))
		for i := range x {
			m, ok := e.mergeVal(c, x[i], y[i])
			if !ok {
				return Value{}, false
			}
			out[i] = m
		}
		return Value{k: a.k, x: out}, true
	case KHost:
		switch p := a.x.(type) {
		case *MapD:
			q, _ := b.x.(*MapD)
			return a, p == q
		case *ChanD:
			q, ok := b.x.(*ChanD)
			if !ok {
				return Value{}, false
			}
			if p == q {
				return a, true
			}
			if len(p.q) != len(q.q) || p.closed != q.closed || p.cap != q.cap {
				return Value{}, false
			}
			n := &ChanD{cap: p.cap, closed: p.closed}
			for i := range p.q {
				m, ok := e.mergeVal(c, p.q[i].v, q.q[i].v)
				if !ok || p.q[i].tid != q.q[i].tid {
					return Value{}, false
				}
				n.q = append(n.q, msg{v: m, tid: p.q[i].tid, vc: p.q[i].vc})
			}
			return Value{k: KHost, x: n}, true
		}
		if a.n != b.n {
			return Value{}, false
		}
		defer func() { recover() }()
		return a, a.x == b.x
	}
	return Value{}, false
}

// Unsupported is raised (Go panic) when the executor meets something it does not model.
type Unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(Unsupported{fmt.Sprintf(f, a...)}) }
