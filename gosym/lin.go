package main

// Linear algebra over GF(2) on sums of atoms: a sum that is a combination of the
// atoms of a table is brought into the table's own coordinates, so that for
// example ite(x = 0, 0, L(x)) with L linear folds to L(x).

import "encoding/binary"

type linRow struct {
	items []uint32
	mask  int
}

type linBasis struct{ rows []linRow }

func symDiff(a, b []uint32) []uint32 {
	out := make([]uint32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j >= len(b) || (i < len(a) && a[i] < b[j]):
			out = append(out, a[i])
			i++
		case i >= len(a) || b[j] < a[i]:
			out = append(out, b[j])
			j++
		default:
			i++
			j++
		}
	}
	return out
}

func (lb *linBasis) reduce(it []uint32, m int) ([]uint32, int) {
	for len(it) > 0 {
		top := it[len(it)-1]
		hit := false
		for i := range lb.rows {
			r := &lb.rows[i]
			if r.items[len(r.items)-1] == top {
				it = symDiff(it, r.items)
				m ^= r.mask
				hit = true
				break
			}
		}
		if !hit {
			return it, m
		}
	}
	return it, m
}

func (c *Ctx) basis(atoms []uint32) *linBasis {
	key := make([]byte, 0, 4*len(atoms))
	for _, a := range atoms {
		key = binary.LittleEndian.AppendUint32(key, a)
	}
	if b, ok := c.linB[string(key)]; ok {
		return b
	}
	b := &linBasis{}
	for i, a := range atoms {
		it, m := b.reduce(c.xorItems(B(a<<1)), 1<<uint(i))
		if len(it) > 0 {
			b.rows = append(b.rows, linRow{it, m})
		}
	}
	if c.linB == nil {
		c.linB = map[string]*linBasis{}
	}
	c.linB[string(key)] = b
	return b
}

// hasXorAtom reports whether b is a table over at least one sum.
func (c *Ctx) hasXorAtom(b B) bool {
	if c.lim < maxSup {
		return false
	}
	nd := &c.nodes[b.node()]
	if nd.kind != bTab {
		return false
	}
	for _, a := range nd.list {
		if c.nodes[a].kind == bXor {
			return true
		}
	}
	return false
}

// ttLin is ttOf for refs that may be sums of the atoms.
func (c *Ctx) ttLin(b B, atoms []uint32) ([]uint64, bool) {
	if b.node() == 0 {
		return c.ttOf(b, atoms), true
	}
	nd := &c.nodes[b.node()]
	if subset(nd.sup, atoms) {
		return c.ttOf(b, atoms), true
	}
	if nd.kind != bXor && nd.kind != bVar {
		return nil, false
	}
	rest, m := c.basis(atoms).reduce(c.xorItems(B(b.node()<<1)), 0)
	if len(rest) > 0 {
		return nil, false
	}
	k := len(atoms)
	out := make([]uint64, ttWords(k))
	for i := range out {
		for j := 0; j < k; j++ {
			if m>>uint(j)&1 == 1 {
				out[i] ^= litTT[j][i%4]
			}
		}
		if b.neg() {
			out[i] = ^out[i]
		}
		out[i] &= ttMask(k)
	}
	return out, true
}
