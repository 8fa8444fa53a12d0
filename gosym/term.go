package main

// Term layer: hash-consed Boolean and bit-vector terms over symbolic input
// bits. Boolean refs carry a complement edge. Small-support functions (at most
// maxSup atoms) are kept as truth tables, affine ones as XOR lists, so GF(2)
// arithmetic and table look-ups normalise; everything else stays an opaque
// word-level operator for the SMT solver.

import (
	"fmt"
	"math/bits"
	"sort"
)

type B uint32 // node<<1 | complement

const (
	T B = 0
	F B = 1
)

func (b B) node() uint32 { return uint32(b) >> 1 }
func (b B) neg() bool    { return b&1 == 1 }
func (b B) not() B       { return b ^ 1 }

type bkind uint8

const (
	bTrue bkind = iota
	bVar        // input bit / free boolean
	bAnd
	bXor
	bMux
	bEq
	bUlt
	bBit
	bTab
)

type bnode struct {
	kind bkind
	a, b B
	c    B
	x, y *BV
	i    int
	list []uint32 // xor items / tab atoms (node ids, sorted)
	tt   []uint64
	name string
	sup  []uint32 // support (<= maxSup atoms) or {self}
}

type vop uint8

const (
	vConst vop = iota
	vBits
	vAdd
	vSub
	vMul
	vUDiv
	vURem
	vSDiv
	vSRem
	vIte
	vShl
	vLshr
	vAshr
)

var vopName = [...]string{"const", "bits", "bvadd", "bvsub", "bvmul", "bvudiv", "bvurem", "bvsdiv", "bvsrem", "ite", "bvshl", "bvlshr", "bvashr"}

// BV is a bit-vector term.
type BV struct {
	id     uint32
	w      int
	op     vop
	a, b   *BV
	c      B
	k      uint64
	bits   []B
	lo, hi uint64
	supv   []uint32 // cached joint support when <= maxSup (only for vConst/vBits)
	supOK  int8     // 0 unknown, 1 ok, -1 too large
}

const maxSup = 8

type nkey struct {
	k       bkind
	a, b, c uint32
}
type vkey struct {
	op   vop
	w    int
	a, b uint32
	c    uint64
}

// UFApp records one application of an uninterpreted function (a free variable per
// distinct argument list).
type Ctx struct {
	nodes    []bnode
	bvs      []*BV
	nmap     map[nkey]uint32
	vmap     map[vkey]*BV
	lmap     map[uint64][]uint32 // xor lists and tabs
	bmap     map[uint64][]*BV    // vBits
	assume   []assumption
	asIdx    map[uint32][]int
	certMax  int
	nSteps   int64
	nextCert int64
	certs    []cert
	lim      int  // largest support kept as a truth table
	raw      bool // no truth-table / XOR normalisation (cross-check mode)
	inputs   []*Input
	inByNm   map[string]*Input
	nTab     int
	smtDef   []string
	asLeaves []map[uint32]bool
	varIdx   map[uint32]int
	assumeX  []int // assumptions without a table
	sim      *simState
	linB     map[string]*linBasis
	lbN      map[uint32]bitset
	lbV      map[uint32]bitset
}

// Input is one named nondeterministic input.
type Input struct {
	Name  string
	W     int    // value width in bits
	Lo    uint64 // offset
	Bits  []uint32
	Term  *BV
	Bool  bool
	Span  uint64
	Sched bool // schedule choice, not part of the program input
}

type assumption struct {
	atoms []uint32
	tt    []uint64
	b     B
}

func NewCtx() *Ctx {
	c := &Ctx{nmap: map[nkey]uint32{}, vmap: map[vkey]*BV{}, lmap: map[uint64][]uint32{}, bmap: map[uint64][]*BV{}, asIdx: map[uint32][]int{}, inByNm: map[string]*Input{}, varIdx: map[uint32]int{}, lbN: map[uint32]bitset{}, lbV: map[uint32]bitset{}, lim: maxSup}
	c.nodes = append(c.nodes, bnode{kind: bTrue})
	return c
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

// ---------- truth tables ----------

var litTT [maxSup][]uint64 // over 8 atoms

func init() {
	for i := 0; i < maxSup; i++ {
		t := make([]uint64, 4)
		for j := 0; j < 256; j++ {
			if j>>uint(i)&1 == 1 {
				t[j/64] |= 1 << uint(j%64)
			}
		}
		litTT[i] = t
	}
}

func ttWords(k int) int {
	if k <= 6 {
		return 1
	}
	return 1 << uint(k-6)
}
func ttMask(k int) uint64 {
	if k >= 6 {
		return ^uint64(0)
	}
	return (uint64(1) << (1 << uint(k))) - 1
}
func ttGet(t []uint64, i int) bool { return t[i>>6]>>(uint(i)&63)&1 == 1 }

// ttExpand re-expresses table t over atoms `from` as a table over `to` (superset).
func ttExpand(t []uint64, from, to []uint32) []uint64 {
	k := len(to)
	if len(from) == k {
		return t
	}
	out := make([]uint64, ttWords(k))
	var pos [maxSup]uint
	j := 0
	for i, a := range from {
		for to[j] != a {
			j++
		}
		pos[i] = uint(j)
	}
	n := 1 << uint(k)
	for m := 0; m < n; m++ {
		idx := 0
		for i := range from {
			idx |= (m >> pos[i] & 1) << uint(i)
		}
		if ttGet(t, idx) {
			out[m>>6] |= 1 << (uint(m) & 63)
		}
	}
	return out
}

func (c *Ctx) unionSup(a, b []uint32) ([]uint32, bool) {
	if len(a) == 0 {
		return b, true
	}
	if len(b) == 0 {
		return a, true
	}
	if len(a) == len(b) {
		same := true
		for i := range a {
			if a[i] != b[i] {
				same = false
				break
			}
		}
		if same {
			return a, true
		}
	}
	var buf [2 * maxSup]uint32
	n, i, j := 0, 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			buf[n] = a[i]
			i++
		case i >= len(a) || b[j] < a[i]:
			buf[n] = b[j]
			j++
		default:
			buf[n] = a[i]
			i++
			j++
		}
		n++
		if n > c.lim {
			return nil, false
		}
	}
	out := make([]uint32, n)
	copy(out, buf[:n])
	return out, true
}

// ttOf gives the truth table of ref b over atoms (superset of its support).
func (c *Ctx) ttOf(b B, atoms []uint32) []uint64 {
	k := len(atoms)
	w := ttWords(k)
	out := make([]uint64, w)
	nd := &c.nodes[b.node()]
	switch nd.kind {
	case bTrue:
		for i := range out {
			out[i] = ttMask(k)
		}
	default:
		found := -1
		for i, a := range atoms {
			if a == b.node() {
				found = i
				break
			}
		}
		if found >= 0 {
			copy(out, litTT[found][:w])
			out[0] &= ttMask(k)
			if w > 1 {
				for i := range out {
					out[i] = litTT[found][i%4]
				}
			}
		} else if nd.kind == bTab {
			copy(out, ttExpand(nd.tt, nd.list, atoms))
		} else if nd.kind == bXor {
			for _, it := range nd.list {
				t := c.ttOf(B(it<<1), atoms)
				for i := range out {
					out[i] ^= t[i]
				}
			}
		} else {
			panic(fmt.Sprintf("ttOf: kind %d not over atoms", nd.kind))
		}
	}
	if b.neg() {
		m := ttMask(k)
		for i := range out {
			out[i] = ^out[i] & m
		}
	}
	return out
}

func (c *Ctx) care(atoms []uint32) []uint64 {
	if len(c.assume) == 0 {
		return nil
	}
	var out []uint64
	k := len(atoms)
	var seen [16]int
	ns := 0
	for _, a := range atoms {
	next:
		for _, ai := range c.asIdx[a] {
			for s := 0; s < ns; s++ {
				if seen[s] == ai {
					continue next
				}
			}
			if ns < len(seen) {
				seen[ns] = ai
				ns++
			}
			as := &c.assume[ai]
			if !subset(as.atoms, atoms) {
				continue
			}
			t := ttExpand(as.tt, as.atoms, atoms)
			if out == nil {
				out = make([]uint64, ttWords(k))
				for i := range out {
					out[i] = ttMask(k)
				}
			}
			for i := range out {
				out[i] &= t[i]
			}
		}
	}
	return out
}

func subset(a, b []uint32) bool {
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j >= len(b) || b[j] != x {
			return false
		}
	}
	return true
}

// fromTT builds the canonical ref of a function over atoms.
func (c *Ctx) fromTT(atoms []uint32, tt []uint64) B {
	k := len(atoms)
	m := ttMask(k)
	care := c.care(atoms)
	allT, allF := true, true
	for i := range tt {
		cm := m
		if care != nil {
			cm = care[i]
		}
		if tt[i]&cm != cm {
			allT = false
		}
		if tt[i]&cm != 0 {
			allF = false
		}
	}
	if allF {
		return F
	}
	if allT {
		return T
	}
	n := 1 << uint(k)
	// affine?
	if care == nil {
		c0 := ttGet(tt, 0)
		var coef int
		for i := 0; i < k; i++ {
			if ttGet(tt, 1<<uint(i)) != c0 {
				coef |= 1 << uint(i)
			}
		}
		aff := true
		for i := range tt {
			var v uint64
			if c0 {
				v = ^uint64(0)
			}
			for j := 0; j < k; j++ {
				if coef>>uint(j)&1 == 1 {
					v ^= litTT[j][i%4]
				}
			}
			if (v^tt[i])&m != 0 {
				aff = false
				break
			}
		}
		if aff {
			return c.affine(atoms, coef, c0)
		}
	} else {
		// Gaussian elimination on care points: unknowns coef_0..coef_{k-1}, const
		var rows [maxSup + 1]uint32
		var rhs [maxSup + 1]bool
		okA := true
		for p := 0; p < n && okA; p++ {
			if !ttGet(care, p) {
				continue
			}
			r := uint32(p) | 1<<uint(k)
			v := ttGet(tt, p)
			for r != 0 {
				h := bits.Len32(r) - 1
				if rows[h] == 0 {
					rows[h] = r
					rhs[h] = v
					break
				}
				r ^= rows[h]
				v = v != rhs[h]
				if r == 0 && v {
					okA = false
				}
			}
		}
		if okA {
			// back substitution, free unknowns = 0
			var sol uint32
			for h := 0; h <= k; h++ {
				if rows[h] == 0 {
					continue
				}
				v := rhs[h]
				low := rows[h] &^ (1 << uint(h))
				if bits.OnesCount32(low&sol)&1 == 1 {
					v = !v
				}
				if v {
					sol |= 1 << uint(h)
				}
			}
			return c.affine(atoms, int(sol&uint32(n-1)), sol>>uint(k)&1 == 1)
		}
		t2 := make([]uint64, len(tt))
		for i := range tt {
			t2[i] = tt[i] & care[i]
		}
		tt = t2
	}
	// drop non-support atoms
	for i := 0; i < k; i++ {
		dep := false
		if i < 6 {
			sh := uint(1) << uint(i)
			for w := range tt {
				if ((tt[w]>>sh)^tt[w])&^litTT[i][0]&m != 0 {
					dep = true
					break
				}
			}
		} else {
			st := 1 << uint(i-6)
			for w := 0; w < len(tt); w++ {
				if w&st == 0 && tt[w] != tt[w|st] {
					dep = true
					break
				}
			}
		}
		if !dep {
			na := make([]uint32, 0, k-1)
			na = append(na, atoms[:i]...)
			na = append(na, atoms[i+1:]...)
			nt := make([]uint64, ttWords(k-1))
			for p := 0; p < n/2; p++ {
				q := p&(1<<uint(i)-1) | (p>>uint(i))<<uint(i+1)
				if ttGet(tt, q) {
					nt[p>>6] |= 1 << (uint(p) & 63)
				}
			}
			return c.fromTT(na, nt)
		}
	}
	neg := tt[0]&1 == 1
	if neg {
		t2 := make([]uint64, len(tt))
		for i := range tt {
			t2[i] = ^tt[i] & m
		}
		tt = t2
	}
	h := uint64(0x9e3779b97f4a7c15)
	for _, a := range atoms {
		h = (h ^ uint64(a)) * 0x100000001b3
	}
	for _, t := range tt {
		h = (h ^ t) * 0xff51afd7ed558ccd
		h ^= h >> 29
	}
	for _, id := range c.lmap[h] {
		nd := &c.nodes[id]
		if nd.kind == bTab && eqU32(nd.list, atoms) && eqU64(nd.tt, tt) {
			return mkB(id, neg)
		}
	}
	id := c.newNode(bnode{kind: bTab, list: atoms, tt: append([]uint64(nil), tt...), sup: atoms})
	c.lmap[h] = append(c.lmap[h], id)
	c.nTab++
	return mkB(id, neg)
}

func (c *Ctx) affine(atoms []uint32, coef int, c0 bool) B {
	var l []uint32
	for i, a := range atoms {
		if coef>>uint(i)&1 == 1 {
			l = append(l, a)
		}
	}
	r := F
	flat := true
	for _, a := range l {
		if c.nodes[a].kind == bXor {
			flat = false
		}
	}
	if flat {
		r = c.xorList(l)
	} else {
		// atoms that are themselves sums are flattened
		cnt := map[uint32]bool{}
		for _, a := range l {
			for _, x := range c.xorItems(B(a << 1)) {
				cnt[x] = !cnt[x]
			}
		}
		out := make([]uint32, 0, len(cnt))
		for x, odd := range cnt {
			if odd {
				out = append(out, x)
			}
		}
		sortU32(out)
		r = c.xorList(out)
	}
	if c0 {
		r = r.not()
	}
	return r
}

func mkB(id uint32, neg bool) B {
	b := B(id << 1)
	if neg {
		b |= 1
	}
	return b
}

func eqU32(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func eqU64(a, b []uint64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (c *Ctx) newNode(n bnode) uint32 {
	id := uint32(len(c.nodes))
	if n.sup == nil {
		n.sup = []uint32{id}
	}
	c.nodes = append(c.nodes, n)
	return id
}

// ---------- boolean constructors ----------

func (c *Ctx) Var(name string) B {
	id := c.newNode(bnode{kind: bVar, name: name})
	c.varIdx[id] = len(c.varIdx)
	return B(id << 1)
}

func (c *Ctx) xorItems(b B) []uint32 {
	nd := &c.nodes[b.node()]
	if nd.kind == bTrue {
		return nil
	}
	if nd.kind == bXor {
		return nd.list
	}
	return []uint32{b.node()}
}

func (c *Ctx) xorList(l []uint32) B {
	if len(l) == 0 {
		return F
	}
	if len(l) == 1 {
		return B(l[0] << 1)
	}
	h := uint64(0xcbf29ce484222325)
	for _, a := range l {
		h = (h ^ uint64(a)) * 0x100000001b3
		h ^= h >> 31
	}
	for _, id := range c.lmap[h] {
		nd := &c.nodes[id]
		if nd.kind == bXor && eqU32(nd.list, l) {
			return B(id << 1)
		}
	}
	var sup []uint32
	ok := len(l) <= c.lim
	if ok {
		for _, it := range l {
			sup, ok = c.unionSup(sup, c.nodes[it].sup)
			if !ok {
				break
			}
		}
	}
	n := bnode{kind: bXor, list: l}
	if ok {
		n.sup = sup
	}
	id := c.newNode(n)
	c.lmap[h] = append(c.lmap[h], id)
	return B(id << 1)
}

func (c *Ctx) Xor(a, b B) B {
	if a.node() == 0 {
		if a == T {
			return b.not()
		}
		return b
	}
	if b.node() == 0 {
		if b == T {
			return a.not()
		}
		return a
	}
	neg := a.neg() != b.neg()
	if a.node() == b.node() {
		if neg {
			return T
		}
		return F
	}
	if !c.raw {
		na, nb := &c.nodes[a.node()], &c.nodes[b.node()]
		if na.kind == bTab || nb.kind == bTab {
			if s, ok := c.unionSup(na.sup, nb.sup); ok {
				ta, tb := c.ttOf(B(a.node()<<1), s), c.ttOf(B(b.node()<<1), s)
				t := make([]uint64, len(ta))
				for i := range t {
					t[i] = ta[i] ^ tb[i]
				}
				r := c.fromTT(s, t)
				if neg {
					r = r.not()
				}
				return r
			}
		}
	}
	la, lb := c.xorItems(a), c.xorItems(b)
	if c.raw {
		la, lb = []uint32{a.node()}, []uint32{b.node()}
	}
	out := make([]uint32, 0, len(la)+len(lb))
	i, j := 0, 0
	for i < len(la) || j < len(lb) {
		switch {
		case j >= len(lb) || (i < len(la) && la[i] < lb[j]):
			out = append(out, la[i])
			i++
		case i >= len(la) || lb[j] < la[i]:
			out = append(out, lb[j])
			j++
		default:
			i++
			j++
		}
	}
	r := c.xorList(out)
	if neg {
		r = r.not()
	}
	return r
}

// A cert records one rewriting step r = op(args), for the solver to confirm.
type cert struct {
	s, a, b, r B
	mux        bool
}

// sample keeps rewriting steps whose result was normalised, at a growing distance.
func (c *Ctx) sample(k cert) {
	if c.certMax == 0 || k.r.node() == 0 && c.nSteps%64 != 0 {
		return
	}
	c.nSteps++
	if c.nSteps < c.nextCert || len(c.certs) >= c.certMax {
		return
	}
	c.nextCert = c.nSteps*5/4 + 40
	c.certs = append(c.certs, k)
}

func (c *Ctx) And(a, b B) B {
	r := c.and0(a, b)
	if c.certMax > 0 && a.node() != 0 && b.node() != 0 {
		c.sample(cert{a: a, b: b, r: r})
	}
	return r
}

func (c *Ctx) and0(a, b B) B {
	if a == F || b == F {
		return F
	}
	if a == T {
		return b
	}
	if b == T {
		return a
	}
	if a == b {
		return a
	}
	if a == b.not() {
		return F
	}
	if !c.raw {
		if s, ok := c.unionSup(c.nodes[a.node()].sup, c.nodes[b.node()].sup); ok {
			ta, tb := c.ttOf(a, s), c.ttOf(b, s)
			t := make([]uint64, len(ta))
			for i := range t {
				t[i] = ta[i] & tb[i]
			}
			return c.fromTT(s, t)
		}
	}
	if !c.raw {
		for q := 0; q < 2; q++ {
			x, y := a, b
			if q == 1 {
				x, y = b, a
			}
			if c.hasXorAtom(x) {
				s := c.nodes[x.node()].list
				if ty, ok := c.ttLin(y, s); ok {
					tx := c.ttOf(x, s)
					t := make([]uint64, len(tx))
					for i := range t {
						t[i] = tx[i] & ty[i]
					}
					return c.fromTT(s, t)
				}
			}
		}
	}
	if a > b {
		a, b = b, a
	}
	// absorption one level
	for q := 0; q < 2; q++ {
		x, y := a, b
		if q == 1 {
			x, y = b, a
		}
		ny := &c.nodes[y.node()]
		if ny.kind == bAnd {
			if !y.neg() {
				if ny.a == x || ny.b == x {
					return y
				}
				if ny.a == x.not() || ny.b == x.not() {
					return F
				}
			} else {
				if ny.a == x.not() || ny.b == x.not() {
					return x
				}
				if ny.a == x {
					return c.And(x, ny.b.not())
				}
				if ny.b == x {
					return c.And(x, ny.a.not())
				}
			}
		}
	}
	k := nkey{bAnd, uint32(a), uint32(b), 0}
	if id, ok := c.nmap[k]; ok {
		return B(id << 1)
	}
	id := c.newNode(bnode{kind: bAnd, a: a, b: b})
	c.nmap[k] = id
	return B(id << 1)
}

func (c *Ctx) Or(a, b B) B { return c.And(a.not(), b.not()).not() }
func (c *Ctx) Implies(a, b B) B {
	return c.And(a, b.not()).not()
}

func (c *Ctx) Mux(s, a, b B) B {
	r := c.mux0(s, a, b)
	if c.certMax > 0 && s.node() != 0 {
		c.sample(cert{s: s, a: a, b: b, r: r, mux: true})
	}
	return r
}

func (c *Ctx) mux0(s, a, b B) B {
	if s == T {
		return a
	}
	if s == F {
		return b
	}
	if a == b {
		return a
	}
	if s.neg() {
		s, a, b = s.not(), b, a
	}
	if a == b.not() {
		return c.Xor(s, b)
	}
	if a == s {
		a = T
	} else if a == s.not() {
		a = F
	}
	if b == s {
		b = F
	} else if b == s.not() {
		b = T
	}
	switch {
	case a == T:
		return c.Or(s, b)
	case a == F:
		return c.And(s.not(), b)
	case b == T:
		return c.Or(s.not(), a)
	case b == F:
		return c.And(s, a)
	}
	if a == b {
		return a
	}
	if a == b.not() {
		return c.Xor(s, b)
	}
	if !c.raw {
		if su, ok := c.unionSup(c.nodes[a.node()].sup, c.nodes[b.node()].sup); ok {
			if su, ok = c.unionSup(su, c.nodes[s.node()].sup); ok {
				ts, ta, tb := c.ttOf(s, su), c.ttOf(a, su), c.ttOf(b, su)
				t := make([]uint64, len(ta))
				for i := range t {
					t[i] = ts[i]&ta[i] | ^ts[i]&tb[i]
				}
				t[0] &= ttMask(len(su))
				return c.fromTT(su, t)
			}
		}
	}
	if !c.raw {
		for _, x := range [3]B{s, a, b} {
			if !c.hasXorAtom(x) {
				continue
			}
			su := c.nodes[x.node()].list
			ts, ok1 := c.ttLin(s, su)
			ta, ok2 := c.ttLin(a, su)
			tb, ok3 := c.ttLin(b, su)
			if ok1 && ok2 && ok3 {
				t := make([]uint64, len(ta))
				for i := range t {
					t[i] = ts[i]&ta[i] | ^ts[i]&tb[i]
				}
				t[0] &= ttMask(len(su))
				return c.fromTT(su, t)
			}
		}
	}
	neg := false
	if a.neg() {
		a, b, neg = a.not(), b.not(), true
	}
	k := nkey{bMux, uint32(a), uint32(b), uint32(s)}
	id, ok := c.nmap[k]
	if !ok {
		id = c.newNode(bnode{kind: bMux, a: a, b: b, c: s})
		c.nmap[k] = id
	}
	return mkB(id, neg)
}

// ---------- bit-vectors ----------

func (c *Ctx) Const(w int, v uint64) *BV {
	v &= mask(w)
	k := vkey{op: vConst, w: w, c: v}
	if x, ok := c.vmap[k]; ok {
		return x
	}
	x := c.newBV(&BV{w: w, op: vConst, k: v, lo: v, hi: v, supOK: 1})
	c.vmap[k] = x
	return x
}

func (c *Ctx) newBV(x *BV) *BV {
	x.id = uint32(len(c.bvs))
	c.bvs = append(c.bvs, x)
	return x
}

func (c *Ctx) MkBits(bs []B) *BV {
	w := len(bs)
	allc := true
	for _, b := range bs {
		if b.node() != 0 {
			allc = false
			break
		}
	}
	if allc {
		var v uint64
		for i, b := range bs {
			if b == T {
				v |= 1 << uint(i)
			}
		}
		return c.Const(w, v)
	}
	if n0 := &c.nodes[bs[0].node()]; n0.kind == bBit && !bs[0].neg() && n0.i == 0 && n0.x.w == w {
		same := true
		for i, b := range bs {
			n := &c.nodes[b.node()]
			if n.kind != bBit || b.neg() || n.i != i || n.x != n0.x {
				same = false
				break
			}
		}
		if same {
			return n0.x
		}
	}
	h := uint64(w)
	for _, b := range bs {
		h = (h ^ uint64(b)) * 0x100000001b3
		h ^= h >> 31
	}
	for _, x := range c.bmap[h] {
		if len(x.bits) == w {
			eq := true
			for i := range bs {
				if x.bits[i] != bs[i] {
					eq = false
					break
				}
			}
			if eq {
				return x
			}
		}
	}
	x := &BV{w: w, op: vBits, bits: append([]B(nil), bs...)}
	for i, b := range bs {
		if b == T {
			x.lo |= 1 << uint(i)
			x.hi |= 1 << uint(i)
		} else if b != F {
			x.hi |= 1 << uint(i)
		}
	}
	c.newBV(x)
	c.bmap[h] = append(c.bmap[h], x)
	return x
}

func (c *Ctx) Bit(x *BV, i int) B {
	switch x.op {
	case vConst:
		if x.k>>uint(i)&1 == 1 {
			return T
		}
		return F
	case vBits:
		return x.bits[i]
	}
	if x.hi < 1<<63 && bits.Len64(x.hi) <= i {
		return F
	}
	k := nkey{bBit, x.id, uint32(i), 0}
	if id, ok := c.nmap[k]; ok {
		return B(id << 1)
	}
	id := c.newNode(bnode{kind: bBit, x: x, i: i})
	c.nmap[k] = id
	return B(id << 1)
}

func (c *Ctx) ToBits(x *BV) []B {
	if x.op == vBits {
		return x.bits
	}
	out := make([]B, x.w)
	for i := range out {
		out[i] = c.Bit(x, i)
	}
	return out
}

// joint support of a const/bits BV
func (c *Ctx) supBV(x *BV) ([]uint32, bool) {
	if x.supOK == 1 {
		return x.supv, true
	}
	if x.supOK == -1 || c.raw {
		return nil, false
	}
	if x.op != vBits {
		x.supOK = -1
		return nil, false
	}
	var s []uint32
	ok := true
	for _, b := range x.bits {
		if b.node() == 0 {
			continue
		}
		s, ok = c.unionSup(s, c.nodes[b.node()].sup)
		if !ok {
			// retry treating xor nodes as atoms
			s = nil
			ok = true
			for _, b := range x.bits {
				if b.node() == 0 {
					continue
				}
				n := &c.nodes[b.node()]
				sp := n.sup
				if n.kind == bXor {
					sp = []uint32{b.node()}
				}
				s, ok = c.unionSup(s, sp)
				if !ok {
					break
				}
			}
			break
		}
	}
	if !ok {
		// every distinct bit is its own atom
		s = nil
		ok = true
		for _, b := range x.bits {
			if b.node() == 0 {
				continue
			}
			if s, ok = c.unionSup(s, []uint32{b.node()}); !ok {
				break
			}
		}
	}
	if !ok {
		x.supOK = -1
		return nil, false
	}
	x.supOK = 1
	x.supv = s
	return s, true
}

// values of x for every assignment of atoms (atoms a superset of x's support)
func (c *Ctx) valTab(x *BV, atoms []uint32) []uint64 {
	n := 1 << uint(len(atoms))
	out := make([]uint64, n)
	if x.op == vConst {
		for i := range out {
			out[i] = x.k
		}
		return out
	}
	for i, b := range x.bits {
		if b == F {
			continue
		}
		bit := uint64(1) << uint(i)
		if b == T {
			for j := range out {
				out[j] |= bit
			}
			continue
		}
		t := c.ttOf(b, atoms)
		for j := range out {
			if t[j>>6]>>(uint(j)&63)&1 == 1 {
				out[j] |= bit
			}
		}
	}
	return out
}

func (c *Ctx) fromValTab(atoms []uint32, w int, vals []uint64) *BV {
	bs := make([]B, w)
	nw := ttWords(len(atoms))
	for i := 0; i < w; i++ {
		t := make([]uint64, nw)
		any := false
		for j, v := range vals {
			if v>>uint(i)&1 == 1 {
				t[j>>6] |= 1 << (uint(j) & 63)
				any = true
			}
		}
		if !any {
			bs[i] = F
			continue
		}
		bs[i] = c.fromTT(atoms, t)
	}
	return c.MkBits(bs)
}

func (c *Ctx) boolFromVals(atoms []uint32, vals []bool) B {
	t := make([]uint64, ttWords(len(atoms)))
	for j, v := range vals {
		if v {
			t[j>>6] |= 1 << (uint(j) & 63)
		}
	}
	return c.fromTT(atoms, t)
}

func (c *Ctx) joint(xs ...*BV) ([]uint32, bool) {
	if c.raw {
		return nil, false
	}
	var s []uint32
	for _, x := range xs {
		sx, ok := c.supBV(x)
		if !ok {
			return nil, false
		}
		if s, ok = c.unionSup(s, sx); !ok {
			return nil, false
		}
	}
	return s, true
}

func sx(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := uint(64 - w)
	return int64(v<<s) >> s
}

func evalOp(op vop, w int, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case vAdd:
		return (a + b) & m
	case vSub:
		return (a - b) & m
	case vMul:
		return (a * b) & m
	case vUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case vURem:
		if b == 0 {
			return a
		}
		return a % b
	case vSDiv:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case vSRem:
		x, y := sx(a, w), sx(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case vShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & m
	case vLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case vAshr:
		if b >= uint64(w) {
			b = uint64(w - 1)
		}
		return uint64(sx(a, w)>>b) & m
	}
	panic("evalOp")
}

func (c *Ctx) Op(op vop, a, b *BV) *BV {
	w := a.w
	if a.op == vConst && b.op == vConst {
		return c.Const(w, evalOp(op, w, a.k, b.k))
	}
	// cheap identities
	if b.op == vConst {
		switch op {
		case vAdd, vSub, vShl, vLshr, vAshr:
			if b.k == 0 {
				return a
			}
		case vMul:
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				return c.ShlC(a, bits.TrailingZeros64(b.k))
			}
		case vUDiv:
			if b.k == 1 {
				return a
			}
			if b.k != 0 && a.hi < b.k {
				return c.Const(w, 0)
			}
			if bits.OnesCount64(b.k) == 1 {
				return c.ShrC(a, bits.TrailingZeros64(b.k), false)
			}
		case vURem:
			if b.k != 0 && a.hi < b.k {
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				n := bits.TrailingZeros64(b.k)
				bs := make([]B, w)
				for i := range bs {
					if i < n {
						bs[i] = c.Bit(a, i)
					} else {
						bs[i] = F
					}
				}
				return c.MkBits(bs)
			}
		case vSDiv:
			if a.hi <= mask(w-1) && b.k <= mask(w-1) && b.k != 0 {
				return c.Op(vUDiv, a, b)
			}
		case vSRem:
			if a.hi <= mask(w-1) && b.k <= mask(w-1) && b.k != 0 {
				return c.Op(vURem, a, b)
			}
		}
		switch op {
		case vShl:
			if b.k >= uint64(w) {
				return c.Const(w, 0)
			}
			return c.ShlC(a, int(b.k))
		case vLshr:
			if b.k >= uint64(w) {
				return c.Const(w, 0)
			}
			return c.ShrC(a, int(b.k), false)
		case vAshr:
			k := b.k
			if k >= uint64(w) {
				k = uint64(w - 1)
			}
			return c.ShrC(a, int(k), true)
		}
	}
	if a.op == vConst {
		switch op {
		case vAdd, vMul:
			return c.Op(op, b, a)
		}
	}
	if op == vSub && a == b {
		return c.Const(w, 0)
	}
	if s, ok := c.joint(a, b); ok {
		va, vb := c.valTab(a, s), c.valTab(b, s)
		out := make([]uint64, len(va))
		for i := range out {
			out[i] = evalOp(op, w, va[i], vb[i])
		}
		return c.fromValTab(s, w, out)
	}
	// disjoint-bit add => or (carry-free)
	if op == vAdd && (a.op == vBits || a.op == vConst) && (b.op == vBits || b.op == vConst) {
		ba, bb := c.ToBits(a), c.ToBits(b)
		dis := true
		for i := range ba {
			if ba[i] != F && bb[i] != F {
				dis = false
				break
			}
		}
		if dis {
			out := make([]B, w)
			for i := range out {
				if ba[i] == F {
					out[i] = bb[i]
				} else {
					out[i] = ba[i]
				}
			}
			return c.MkBits(out)
		}
	}
	// add of constants re-association
	if op == vSub && b.op == vConst {
		return c.Op(vAdd, a, c.Const(w, -b.k))
	}
	if op == vAdd && b.op == vConst && a.op == vAdd && a.b.op == vConst {
		return c.Op(vAdd, a.a, c.Const(w, a.b.k+b.k))
	}
	if op == vAdd && b.op != vConst && a.id > b.id {
		a, b = b, a
	}
	if op == vAdd && a.op == vConst {
		a, b = b, a
	}
	k := vkey{op: op, w: w, a: a.id, b: b.id}
	if x, ok := c.vmap[k]; ok {
		return x
	}
	x := &BV{w: w, op: op, a: a, b: b, lo: 0, hi: mask(w), supOK: -1}
	m := mask(w)
	switch op {
	case vAdd:
		lo, c1 := bits.Add64(a.lo, b.lo, 0)
		hi, c2 := bits.Add64(a.hi, b.hi, 0)
		if c1 == 0 && c2 == 0 && hi <= m {
			x.lo, x.hi = lo, hi
		} else if b.op == vConst {
			// adding a negative constant with no underflow
			neg := (-b.k) & m
			if a.lo >= neg && neg <= mask(w-1) {
				x.lo, x.hi = a.lo-neg, a.hi-neg
			}
		}
	case vSub:
		if a.lo >= b.hi {
			x.lo, x.hi = a.lo-b.hi, a.hi-b.lo
		}
	case vMul:
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			x.lo, x.hi = a.lo*b.lo, l
		}
	case vUDiv:
		if b.lo > 0 {
			x.lo, x.hi = a.lo/b.hi, a.hi/b.lo
		}
	case vURem:
		if b.lo > 0 {
			x.hi = b.hi - 1
			if a.hi < x.hi {
				x.hi = a.hi
			}
		}
	case vLshr:
		x.hi = a.hi
	}
	c.newBV(x)
	c.vmap[k] = x
	return x
}

func (c *Ctx) ShlC(a *BV, n int) *BV {
	bs := make([]B, a.w)
	for i := range bs {
		if i < n {
			bs[i] = F
		} else {
			bs[i] = c.Bit(a, i-n)
		}
	}
	return c.MkBits(bs)
}
func (c *Ctx) ShrC(a *BV, n int, arith bool) *BV {
	bs := make([]B, a.w)
	for i := range bs {
		if i+n < a.w {
			bs[i] = c.Bit(a, i+n)
		} else if arith {
			bs[i] = c.Bit(a, a.w-1)
		} else {
			bs[i] = F
		}
	}
	return c.MkBits(bs)
}

// Bitwise op: 0 and, 1 or, 2 xor, 3 andnot
func (c *Ctx) Bitwise(op int, a, b *BV) *BV {
	bs := make([]B, a.w)
	for i := range bs {
		x, y := c.Bit(a, i), c.Bit(b, i)
		switch op {
		case 0:
			bs[i] = c.And(x, y)
		case 1:
			bs[i] = c.Or(x, y)
		case 2:
			bs[i] = c.Xor(x, y)
		case 3:
			bs[i] = c.And(x, y.not())
		}
	}
	return c.MkBits(bs)
}

func (c *Ctx) NotV(a *BV) *BV {
	bs := make([]B, a.w)
	for i := range bs {
		bs[i] = c.Bit(a, i).not()
	}
	return c.MkBits(bs)
}

// Resize converts width; signed selects sign extension.
func (c *Ctx) Resize(a *BV, w int, signed bool) *BV {
	if a.w == w {
		return a
	}
	if w < a.w {
		switch a.op {
		case vConst:
			return c.Const(w, a.k)
		case vAdd, vSub, vMul:
			return c.Op(a.op, c.Resize(a.a, w, false), c.Resize(a.b, w, false))
		case vIte:
			return c.Ite(a.c, c.Resize(a.a, w, false), c.Resize(a.b, w, false))
		}
		return c.MkBits(c.ToBits(a)[:w])
	}
	if a.op == vConst {
		if signed {
			return c.Const(w, uint64(sx(a.k, a.w)))
		}
		return c.Const(w, a.k)
	}
	if a.op == vIte {
		return c.Ite(a.c, c.Resize(a.a, w, signed), c.Resize(a.b, w, signed))
	}
	// widening of non-overflowing arithmetic
	if a.hi <= mask(a.w-1) || !signed {
		if a.op == vAdd || a.op == vMul {
			if h1 := c.noOverflow(a); h1 {
				return c.Op(a.op, c.Resize(a.a, w, false), c.Resize(a.b, w, false))
			}
		}
	}
	bs := make([]B, w)
	ab := c.ToBits(a)
	copy(bs, ab)
	fill := F
	if signed {
		fill = ab[a.w-1]
	}
	for i := a.w; i < w; i++ {
		bs[i] = fill
	}
	return c.MkBits(bs)
}

func (c *Ctx) noOverflow(a *BV) bool {
	m := mask(a.w)
	switch a.op {
	case vAdd:
		s, cy := bits.Add64(a.a.hi, a.b.hi, 0)
		return cy == 0 && s <= m
	case vMul:
		h, l := bits.Mul64(a.a.hi, a.b.hi)
		return h == 0 && l <= m
	}
	return false
}

func (c *Ctx) Ite(s B, a, b *BV) *BV {
	if s == T {
		return a
	}
	if s == F {
		return b
	}
	if a == b {
		return a
	}
	if (a.op == vBits || a.op == vConst) && (b.op == vBits || b.op == vConst) && (!c.raw || a.w <= 16) {
		bs := make([]B, a.w)
		for i := range bs {
			bs[i] = c.Mux(s, c.Bit(a, i), c.Bit(b, i))
		}
		return c.MkBits(bs)
	}
	if s.neg() {
		s, a, b = s.not(), b, a
	}
	// factor x vs x+k: ite(s, x+k, x) = x + ite(s,k,0)
	if a.op == vAdd && a.b.op == vConst && a.a == b && b.op != vConst {
		return c.Op(vAdd, b, c.Ite(s, a.b, c.Const(a.w, 0)))
	}
	if b.op == vAdd && b.b.op == vConst && b.a == a && a.op != vConst {
		return c.Op(vAdd, a, c.Ite(s, c.Const(a.w, 0), b.b))
	}
	k := vkey{op: vIte, w: a.w, a: a.id, b: b.id, c: uint64(s)}
	if x, ok := c.vmap[k]; ok {
		return x
	}
	x := &BV{w: a.w, op: vIte, a: a, b: b, c: s, lo: min(a.lo, b.lo), hi: max(a.hi, b.hi), supOK: -1}
	c.newBV(x)
	c.vmap[k] = x
	return x
}

func (c *Ctx) Eq(a, b *BV) B {
	if a == b {
		return T
	}
	if a.op == vConst && b.op == vConst {
		return F
	}
	if a.hi < b.lo || b.hi < a.lo {
		return F
	}
	if s, ok := c.joint(a, b); ok {
		va, vb := c.valTab(a, s), c.valTab(b, s)
		out := make([]bool, len(va))
		for i := range out {
			out[i] = va[i] == vb[i]
		}
		return c.boolFromVals(s, out)
	}
	isB := func(x *BV) bool { return x.op == vBits || x.op == vConst }
	if isB(a) && isB(b) {
		r := T
		ba, bb := c.ToBits(a), c.ToBits(b)
		for i := range ba {
			if ba[i] == bb[i].not() {
				return F
			}
		}
		for i := range ba {
			r = c.And(r, c.Xor(ba[i], bb[i]).not())
			if r == F {
				return F
			}
		}
		return r
	}
	if a.op == vIte && b.op == vConst {
		return c.Mux(a.c, c.Eq(a.a, b), c.Eq(a.b, b))
	}
	if b.op == vIte && a.op == vConst {
		return c.Mux(b.c, c.Eq(b.a, a), c.Eq(b.b, a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	k := nkey{bEq, a.id, b.id, 0}
	if id, ok := c.nmap[k]; ok {
		return B(id << 1)
	}
	id := c.newNode(bnode{kind: bEq, x: a, y: b})
	c.nmap[k] = id
	return B(id << 1)
}

func (c *Ctx) Ult(a, b *BV) B {
	if a == b {
		return F
	}
	if a.hi < b.lo {
		return T
	}
	if a.lo >= b.hi {
		return F
	}
	if s, ok := c.joint(a, b); ok {
		va, vb := c.valTab(a, s), c.valTab(b, s)
		out := make([]bool, len(va))
		for i := range out {
			out[i] = va[i] < vb[i]
		}
		return c.boolFromVals(s, out)
	}
	if a.op == vIte && b.op == vConst {
		return c.Mux(a.c, c.Ult(a.a, b), c.Ult(a.b, b))
	}
	if b.op == vIte && a.op == vConst {
		return c.Mux(b.c, c.Ult(a, b.a), c.Ult(a, b.b))
	}
	k := nkey{bUlt, a.id, b.id, 0}
	if id, ok := c.nmap[k]; ok {
		return B(id << 1)
	}
	id := c.newNode(bnode{kind: bUlt, x: a, y: b})
	c.nmap[k] = id
	return B(id << 1)
}

func (c *Ctx) Slt(a, b *BV) B {
	w := a.w
	if a.hi <= mask(w-1) && b.hi <= mask(w-1) {
		return c.Ult(a, b)
	}
	flip := func(x *BV) *BV {
		if x.op == vConst {
			return c.Const(w, x.k^(1<<uint(w-1)))
		}
		bs := append([]B(nil), c.ToBits(x)...)
		bs[w-1] = bs[w-1].not()
		return c.MkBits(bs)
	}
	return c.Ult(flip(a), flip(b))
}

// NewInput declares a named input of the given width with value lo+raw, raw in [0, hi-lo].
func (c *Ctx) NewInput(name string, w int, lo, hi uint64, isBool bool) (*Input, B) {
	n := bits.Len64(hi - lo)
	in := &Input{Name: name, W: w, Lo: lo, Bool: isBool, Span: hi - lo}
	bs := make([]B, w)
	for i := range bs {
		bs[i] = F
	}
	for i := 0; i < n; i++ {
		b := c.Var(fmt.Sprintf("%s.%d", name, i))
		in.Bits = append(in.Bits, b.node())
		bs[i] = b
	}
	r := c.MkBits(bs)
	cond := T
	if hi-lo != mask(n) {
		cond = c.Ult(c.Const(w, hi-lo), r).not()
		c.AddAssume(cond)
	}
	in.Term = c.Op(vAdd, r, c.Const(w, lo))
	c.inputs = append(c.inputs, in)
	c.inByNm[name] = in
	return in, cond
}

// AddAssume registers a global assumption (holds in every later query).
func (c *Ctx) AddAssume(b B) {
	if b == T {
		return
	}
	as := assumption{b: b}
	s := c.nodes[b.node()].sup
	if !c.raw && !(len(s) == 1 && s[0] == b.node() && c.nodes[b.node()].kind != bVar) && b.node() != 0 {
		as.atoms = s
		as.tt = c.ttOf(b, s)
	}
	c.assume = append(c.assume, as)
	if as.atoms == nil {
		c.assumeX = append(c.assumeX, len(c.assume)-1)
	}
	for _, a := range as.atoms {
		c.asIdx[a] = append(c.asIdx[a], len(c.assume)-1)
	}
}

// globalAssume registers a condition on a few input bits that every execution meets
// before anything else forked, so that later formulas fold under it.
func (c *Ctx) globalAssume(b B) bool {
	nd := &c.nodes[b.node()]
	if nd.kind != bTab || c.lim < maxSup {
		return false
	}
	for _, a := range nd.list {
		if c.nodes[a].kind != bVar {
			return false
		}
	}
	c.AddAssume(b)
	return true
}

// ---------- support (leaf variables) ----------

func (c *Ctx) leaves(roots []B) map[uint32]bool {
	out := map[uint32]bool{}
	seenN := map[uint32]bool{}
	seenV := map[uint32]bool{}
	var goB func(b uint32)
	var goV func(v *BV)
	goB = func(n uint32) {
		if n == 0 || seenN[n] {
			return
		}
		seenN[n] = true
		nd := &c.nodes[n]
		switch nd.kind {
		case bVar:
			out[n] = true
		case bAnd:
			goB(nd.a.node())
			goB(nd.b.node())
		case bMux:
			goB(nd.a.node())
			goB(nd.b.node())
			goB(nd.c.node())
		case bXor, bTab:
			for _, x := range nd.list {
				goB(x)
			}
		case bEq, bUlt:
			goV(nd.x)
			goV(nd.y)
		case bBit:
			goV(nd.x)
		}
	}
	goV = func(v *BV) {
		if v == nil || seenV[v.id] {
			return
		}
		seenV[v.id] = true
		for _, b := range v.bits {
			goB(b.node())
		}
		if v.op == vIte {
			goB(v.c.node())
		}
		goV(v.a)
		goV(v.b)
	}
	for _, r := range roots {
		goB(r.node())
	}
	return out
}

// ---------- evaluation under an assignment of variables ----------

type Model map[uint32]bool // bVar node -> value (missing = false)

type evaluator struct {
	c  *Ctx
	m  Model
	nb map[uint32]bool
	nv map[uint32]uint64
}

func (c *Ctx) newEval(m Model) *evaluator {
	return &evaluator{c: c, m: m, nb: map[uint32]bool{}, nv: map[uint32]uint64{}}
}

func (e *evaluator) B(b B) bool { return e.n(b.node()) != b.neg() }
func (e *evaluator) n(n uint32) bool {
	if n == 0 {
		return true
	}
	nd := &e.c.nodes[n]
	if nd.kind == bVar {
		return e.m[n]
	}
	if v, ok := e.nb[n]; ok {
		return v
	}
	var r bool
	switch nd.kind {
	case bAnd:
		r = e.B(nd.a) && e.B(nd.b)
	case bMux:
		if e.B(nd.c) {
			r = e.B(nd.a)
		} else {
			r = e.B(nd.b)
		}
	case bXor:
		for _, x := range nd.list {
			if e.n(x) {
				r = !r
			}
		}
	case bTab:
		idx := 0
		for i, x := range nd.list {
			if e.n(x) {
				idx |= 1 << uint(i)
			}
		}
		r = ttGet(nd.tt, idx)
	case bEq:
		r = e.V(nd.x) == e.V(nd.y)
	case bUlt:
		r = e.V(nd.x) < e.V(nd.y)
	case bBit:
		r = e.V(nd.x)>>uint(nd.i)&1 == 1
	}
	e.nb[n] = r
	return r
}
func (e *evaluator) V(v *BV) uint64 {
	if v.op == vConst {
		return v.k
	}
	if r, ok := e.nv[v.id]; ok {
		return r
	}
	var r uint64
	switch v.op {
	case vBits:
		for i, b := range v.bits {
			if e.B(b) {
				r |= 1 << uint(i)
			}
		}
	case vIte:
		if e.B(v.c) {
			r = e.V(v.a)
		} else {
			r = e.V(v.b)
		}
	default:
		r = evalOp(v.op, v.w, e.V(v.a), e.V(v.b))
	}
	e.nv[v.id] = r
	return r
}

func sortU32(a []uint32) { sort.Slice(a, func(i, j int) bool { return a[i] < a[j] }) }

func (c *Ctx) assumeLeaves(i int) map[uint32]bool {
	for len(c.asLeaves) <= i {
		c.asLeaves = append(c.asLeaves, c.leaves([]B{c.assume[len(c.asLeaves)].b}))
	}
	return c.asLeaves[i]
}

type bitset []uint64

func (a bitset) or(b bitset) bitset {
	if b.subset(a) {
		return a
	}
	if a.subset(b) {
		return b
	}
	n := make(bitset, max(len(a), len(b)))
	copy(n, a)
	for i, x := range b {
		n[i] |= x
	}
	return n
}
func (a bitset) meets(b bitset) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i]&b[i] != 0 {
			return true
		}
	}
	return false
}
func (a bitset) subset(b bitset) bool {
	for i, x := range a {
		if i >= len(b) {
			if x != 0 {
				return false
			}
		} else if x&^b[i] != 0 {
			return false
		}
	}
	return true
}
func (a bitset) clone() bitset { return append(bitset(nil), a...) }

// leafBits is the set of input variables a term depends on.
func (c *Ctx) leafBits(b B) bitset { return c.lbNode(b.node()) }

func (c *Ctx) lbNode(n uint32) bitset {
	if n == 0 {
		return nil
	}
	if s, ok := c.lbN[n]; ok {
		return s
	}
	nd := &c.nodes[n]
	var s bitset
	switch nd.kind {
	case bVar:
		i := c.varIdx[n]
		s = make(bitset, i/64+1)
		s[i/64] |= 1 << uint(i%64)
	case bAnd:
		s = c.lbNode(nd.a.node()).or(c.lbNode(nd.b.node()))
	case bMux:
		s = c.lbNode(nd.a.node()).or(c.lbNode(nd.b.node())).or(c.lbNode(nd.c.node()))
	case bXor, bTab:
		for _, x := range nd.list {
			s = s.or(c.lbNode(x))
		}
	case bEq, bUlt:
		s = c.lbBV(nd.x).or(c.lbBV(nd.y))
	case bBit:
		s = c.lbBV(nd.x)
	}
	c.lbN[n] = s
	return s
}

func (c *Ctx) lbBV(v *BV) bitset {
	if v == nil || v.op == vConst {
		return nil
	}
	if s, ok := c.lbV[v.id]; ok {
		return s
	}
	var s bitset
	for _, b := range v.bits {
		s = s.or(c.lbNode(b.node()))
	}
	if v.op == vIte {
		s = s.or(c.lbNode(v.c.node()))
	}
	s = s.or(c.lbBV(v.a)).or(c.lbBV(v.b))
	c.lbV[v.id] = s
	return s
}
