package main

// Random simulation: every term carries the values it takes under 1024 fixed
// random input assignments that satisfy the input ranges. It only ever answers
// "satisfiable", sparing the solver the easy feasibility questions.

import "hash/fnv"

const simN = 1024
const simW = simN / 64

type simSig [simW]uint64

type simState struct {
	n  map[uint32]*simSig
	v  map[uint32]*[simN]uint64
	in int
	as int
}

func (c *Ctx) simInit() {
	if c.sim == nil {
		c.sim = &simState{n: map[uint32]*simSig{}, v: map[uint32]*[simN]uint64{}}
	}
	if len(c.sim.v) > 16000 {
		c.sim.v = map[uint32]*[simN]uint64{}
	}
	if len(c.sim.n) > 4000000 {
		c.sim.n = map[uint32]*simSig{}
		c.sim.in = 0
	}
	if c.sim.as < len(c.assume) {
		c.sim.as = len(c.assume)
		if len(c.sim.n) > 0 {
			c.sim.n = map[uint32]*simSig{}
			c.sim.v = map[uint32]*[simN]uint64{}
			c.sim.in = 0
		}
	}
	in0 := c.sim.in
	defer func() {
		if c.sim.in != in0 {
			c.simRepair()
		}
	}()
	for ; c.sim.in < len(c.inputs); c.sim.in++ {
		in := c.inputs[c.sim.in]
		if len(in.Bits) == 0 {
			continue
		}
		sg := make([]simSig, len(in.Bits))
		h := fnv.New64a()
		h.Write([]byte(in.Name))
		x := h.Sum64() | 1
		for s := 0; s < simN; s++ {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			v := x * 0x2545F4914F6CDD1D
			switch {
			case s == 0:
				v = 0
			case s == 1:
				v = in.Span
			case in.Span != ^uint64(0):
				v = (v >> 11) % (in.Span + 1)
			}
			for i := range in.Bits {
				if v>>uint(i)&1 == 1 {
					sg[i][s>>6] |= 1 << uint(s&63)
				}
			}
		}
		for i, b := range in.Bits {
			c.sim.n[b] = &sg[i]
		}
	}
}

// simRepair redraws the samples that break an assumption over a few input bits.
func (c *Ctx) simRepair() {
	for ai := range c.assume {
		as := &c.assume[ai]
		var sg [maxSup]*simSig
		ok := len(as.atoms) > 0
		for i, a := range as.atoms {
			if c.nodes[a].kind != bVar || c.sim.n[a] == nil {
				ok = false
				break
			}
			sg[i] = c.sim.n[a]
		}
		if !ok {
			continue
		}
		care := c.care(as.atoms)
		var pts []int
		for p := 0; p < 1<<uint(len(as.atoms)); p++ {
			if ttGet(care, p) {
				pts = append(pts, p)
			}
		}
		if len(pts) == 0 {
			continue
		}
		x := uint64(ai)*0x9E3779B97F4A7C15 + 12345
		for s := 0; s < simN; s++ {
			idx := 0
			for j := range as.atoms {
				idx |= int(sg[j][s>>6]>>uint(s&63)&1) << uint(j)
			}
			if ttGet(care, idx) {
				continue
			}
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			p := pts[x%uint64(len(pts))]
			for j := range as.atoms {
				sg[j][s>>6] &^= 1 << uint(s&63)
				sg[j][s>>6] |= uint64(p>>uint(j)&1) << uint(s&63)
			}
		}
	}
}

func (c *Ctx) simB(b B) simSig {
	r := *c.simNode(b.node())
	if b.neg() {
		for i := range r {
			r[i] = ^r[i]
		}
	}
	return r
}

var simOnes = func() *simSig {
	var s simSig
	for i := range s {
		s[i] = ^uint64(0)
	}
	return &s
}()

func (c *Ctx) simNode(n uint32) *simSig {
	if n == 0 {
		return simOnes
	}
	if s, ok := c.sim.n[n]; ok {
		return s
	}
	nd := &c.nodes[n]
	r := &simSig{}
	switch nd.kind {
	case bVar:
		// a variable that is not an input bit
		x := uint64(n)*0x9E3779B97F4A7C15 + 1
		for i := range r {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			r[i] = x
		}
	case bAnd:
		x, y := c.simB(nd.a), c.simB(nd.b)
		for i := range r {
			r[i] = x[i] & y[i]
		}
	case bMux:
		s, x, y := c.simB(nd.c), c.simB(nd.a), c.simB(nd.b)
		for i := range r {
			r[i] = s[i]&x[i] | ^s[i]&y[i]
		}
	case bXor:
		for _, k := range nd.list {
			x := c.simNode(k)
			for i := range r {
				r[i] ^= x[i]
			}
		}
	case bTab:
		var xs [16]*simSig
		for j, k := range nd.list {
			xs[j] = c.simNode(k)
		}
		k := len(nd.list)
		for s := 0; s < simN; s++ {
			idx := 0
			for j := 0; j < k; j++ {
				idx |= int(xs[j][s>>6]>>uint(s&63)&1) << uint(j)
			}
			if ttGet(nd.tt, idx) {
				r[s>>6] |= 1 << uint(s&63)
			}
		}
	case bEq, bUlt:
		x, y := c.simBV(nd.x), c.simBV(nd.y)
		for s := 0; s < simN; s++ {
			if nd.kind == bEq && x[s] == y[s] || nd.kind == bUlt && x[s] < y[s] {
				r[s>>6] |= 1 << uint(s&63)
			}
		}
	case bBit:
		x := c.simBV(nd.x)
		for s := 0; s < simN; s++ {
			r[s>>6] |= (x[s] >> uint(nd.i) & 1) << uint(s&63)
		}
	}
	c.sim.n[n] = r
	return r
}

func (c *Ctx) simBV(v *BV) *[simN]uint64 {
	if s, ok := c.sim.v[v.id]; ok {
		return s
	}
	r := &[simN]uint64{}
	switch v.op {
	case vConst:
		for s := range r {
			r[s] = v.k
		}
	case vBits:
		for i, b := range v.bits {
			if b == F {
				continue
			}
			x := c.simB(b)
			for s := 0; s < simN; s++ {
				r[s] |= (x[s>>6] >> uint(s&63) & 1) << uint(i)
			}
		}
	case vIte:
		cc, x, y := c.simB(v.c), c.simBV(v.a), c.simBV(v.b)
		for s := range r {
			if cc[s>>6]>>uint(s&63)&1 == 1 {
				r[s] = x[s]
			} else {
				r[s] = y[s]
			}
		}
	default:
		x, y := c.simBV(v.a), c.simBV(v.b)
		for s := range r {
			r[s] = evalOp(v.op, v.w, x[s], y[s])
		}
	}
	c.sim.v[v.id] = r
	return r
}

// simPC is the set of samples satisfying the whole path condition.
func (c *Ctx) simPC(p *PC) *simSig {
	if p == nil {
		return simOnes
	}
	if p.sig == nil || p.sigv != c.sim.as {
		// iterative: path conditions can be long
		var todo []*PC
		q := p
		for q != nil && (q.sig == nil || q.sigv != c.sim.as) {
			todo = append(todo, q)
			q = q.parent
		}
		cur := *simOnes
		if q != nil {
			cur = *q.sig
		}
		for i := len(todo) - 1; i >= 0; i-- {
			s := c.simB(todo[i].c)
			for k := range cur {
				cur[k] &= s[k]
			}
			sg := cur
			todo[i].sig, todo[i].sigv = &sg, c.sim.as
		}
	}
	return p.sig
}

// simSat reports whether some sample satisfies pc and b.
func (c *Ctx) simSat(p *PC, b B) bool {
	c.simInit()
	x, y := c.simPC(p), c.simB(b)
	for i := range x {
		if x[i]&y[i] != 0 {
			return true
		}
	}
	return false
}

// simModel is a sampled assignment that satisfies pc and every assumption, or nil.
func (c *Ctx) simModel(pc *PC) Model {
	c.simInit()
	sig := *c.simPC(pc)
	for i := range c.assume {
		x := c.simB(c.assume[i].b)
		for k := range sig {
			sig[k] &= x[k]
		}
	}
	for k := 0; k < simN; k++ {
		s := (k + 2) % simN // the first two are all-low and all-high
		if sig[s>>6]>>uint(s&63)&1 == 0 {
			continue
		}
		m := Model{}
		for v := range c.varIdx {
			if c.simNode(v)[s>>6]>>uint(s&63)&1 == 1 {
				m[v] = true
			}
		}
		return m
	}
	return nil
}
