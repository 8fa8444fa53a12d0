package qrcode

import "github.com/yeqown/reedsolomon"
import "github.com/yeqown/reedsolomon/binary"

type vxCapW struct {
	m      *Matrix
	writes int
	closes int
}

func (w *vxCapW) Write(m Matrix) error {
	w.m = &m
	w.writes++
	return nil
}
func (w *vxCapW) Close() error { w.closes++; return nil }

// vxGrid saves the symbol and returns its modules, [y][x], true = dark.
func vxGrid(q *QRCode) [][]bool {
	w := &vxCapW{}
	err := q.Save(w)
	vxAssert(err == nil, "saving the symbol failed")
	vxAssert(w.m != nil, "the writer was not given a matrix")
	n := w.m.Width()
	vxAssert(n == w.m.Height(), "symbol is not square")
	vxAssert(n == q.Dimension(), "reported dimension differs from the matrix")
	g := make([][]bool, n)
	for y := range g {
		g[y] = make([]bool, n)
	}
	cnt := 0
	w.m.Iterate(IterDirection_ROW, func(x, y int, s QRValue) {
		g[y][x] = s.IsSet()
		cnt++
	})
	vxAssert(cnt == n*n, "iteration did not visit every module")
	return g
}

func vxMode(mode int) encMode {
	switch mode {
	case 1:
		return EncModeNumeric
	case 2:
		return EncModeAlphanumeric
	case 4:
		return EncModeByte
	case 8:
		return EncModeKanji
	}
	return EncModeAuto
}

func vxName(p string, i int) string {
	if i == 0 {
		return p + "0"
	}
	var d []byte
	for i > 0 {
		d = append(d, byte('0'+i%10))
		i /= 10
	}
	b := []byte(p)
	for k := len(d) - 1; k >= 0; k-- {
		b = append(b, d[k])
	}
	return string(b)
}

// vxText makes a text of n characters of a mode; vals are the character values a
// decoder must recover.
func vxText(mode, n int) (text []byte, vals []int) {
	for i := 0; i < n; i++ {
		switch mode {
		case 1:
			d := vxU8R(vxName("d", i), 0, 9)
			text = append(text, '0'+d)
			vals = append(vals, int(d))
		case 2:
			d := vxU8R(vxName("a", i), 0, 44)
			text = append(text, vxAlnum[d])
			vals = append(vals, int(d))
		case 4:
			d := vxU8(vxName("b", i))
			text = append(text, d)
			vals = append(vals, int(d))
		case 8:
			// the pages of the kanji vary with the position
			u, v := vxKanjiChar(vxName("k", i), 0x4e+(i*29+7)%82, false)
			text = append(text, u...)
			vals = append(vals, v)
		}
	}
	return
}

// vxReadFormat returns the mask number, after checking both copies of the format word.
func vxReadFormat(g [][]bool, lv int) int {
	n := len(g)
	var wa, wb int
	for i := 0; i < 15; i++ {
		a, b := vxFmtPos(n, i)
		if g[a[1]][a[0]] {
			wa |= 1 << uint(i)
		}
		if g[b[1]][b[0]] {
			wb |= 1 << uint(i)
		}
	}
	mask := vxSplit((wa ^ 0x5412) >> 10 & 7)
	vxAssert(wa == vxFmtWord(lv, mask), "format information (first copy) is not a valid word for the level and mask")
	vxAssert(wb == wa, "the two copies of the format information differ")
	return mask
}

// vxCheckFixed checks every function pattern module, format and version information.
func vxCheckFixed(g [][]bool, ver, lv int) {
	kind, dark := vxLayout(ver)
	bad := false
	for y := range g {
		for x := range g[y] {
			switch kind[y][x] {
			case vxkFinder, vxkSep, vxkTiming, vxkAlign, vxkDark:
				if g[y][x] != dark[y][x] {
					bad = true
				}
			}
		}
	}
	vxAssert(!bad, "a function pattern module has the wrong colour")
	vxReadFormat(g, lv)
	if ver >= 7 {
		var wa, wb int
		n := len(g)
		for i := 0; i < 18; i++ {
			if g[i/3][n-11+i%3] {
				wa |= 1 << uint(i)
			}
			if g[n-11+i%3][i/3] {
				wb |= 1 << uint(i)
			}
		}
		vxAssert(wa == vxVerWord(ver), "version information (upper right) is wrong")
		vxAssert(wb == vxVerWord(ver), "version information (lower left) is wrong")
	}
}

// vxCheckBlocks checks that every block is a codeword of its Reed-Solomon code.
func vxCheckBlocks(bl []vxBlock, how int) {
	for _, b := range bl {
		if how == 1 {
			for i := range b.ecc {
				vxAssert(vxSyndrome(b, i) == 0, "a block is not a Reed-Solomon codeword")
			}
		} else {
			bin := binary.New()
			bin.AppendBytes(b.data...)
			w, err := reedsolomon.Encode(bin, len(b.ecc)).Subset(len(b.data)*8, (len(b.data)+len(b.ecc))*8)
			vxAssert(err == nil, "reference encoding failed")
			bad := false
			for i, e := range b.ecc {
				for k := 0; k < 8; k++ {
					if w.At(i*8+k) != (e>>uint(7-k)&1 == 1) {
						bad = true
					}
				}
			}
			vxAssert(!bad, "parity codewords differ from the Reed-Solomon encoding of the block")
		}
	}
}

// vxDecode reads one segment and checks it against the expected values.
func vxDecode(data []byte, ver, mode int, vals []int) {
	s := &vxStream{b: data}
	vxAssert(s.get(4) == mode, "wrong mode indicator")
	n := s.get(vxCountBits(ver, mode))
	vxAssert(n == len(vals), "wrong character count")
	n = len(vals)
	vxAssert(vxDataBits(mode, n) <= s.left(), "the characters do not fit the symbol")
	bad := false
	switch mode {
	case 1:
		for i := 0; i < n; i += 3 {
			switch n - i {
			case 1:
				if s.get(4) != vals[i] {
					bad = true
				}
			case 2:
				if s.get(7) != vals[i]*10+vals[i+1] {
					bad = true
				}
			default:
				if s.get(10) != vals[i]*100+vals[i+1]*10+vals[i+2] {
					bad = true
				}
			}
		}
	case 2:
		for i := 0; i < n; i += 2 {
			if n-i == 1 {
				if s.get(6) != vals[i] {
					bad = true
				}
			} else if s.get(11) != vals[i]*45+vals[i+1] {
				bad = true
			}
		}
	case 4:
		for i := 0; i < n; i++ {
			if s.get(8) != vals[i] {
				bad = true
			}
		}
	default:
		for i := 0; i < n; i++ {
			if s.get(13) != vals[i] {
				bad = true
			}
		}
	}
	vxAssert(!bad, "decoded characters differ from the text")
	t := s.left()
	if t > 4 {
		t = 4
	}
	vxAssert(s.get(t) == 0, "no terminator after the data")
	for s.pos&7 != 0 {
		vxAssert(s.get(1) == 0, "non-zero bits before the pad codewords")
	}
	for k := 0; s.left() > 0; k++ {
		want := 0xec
		if k&1 == 1 {
			want = 0x11
		}
		vxAssert(s.get(8) == want, "wrong pad codeword")
	}
}

// vxhRound: a text of n characters in a given mode, at a given version and level.
// chk: 1 decode, 2 block structure, 4 function patterns.
func vxhRound() {
	ver, lv, mode, n := vxParam("ver"), vxParam("lv"), vxParam("mode"), vxParam("n")
	chk := vxParam("chk")
	text, vals := vxText(mode, n)
	opts := []EncodeOption{WithErrorCorrectionLevel(ecLevel(lv)), WithEncodingMode(vxMode(mode))}
	if vxParam("auto") == 0 {
		opts = append(opts, WithVersion(ver))
	}
	q, err := NewWith(string(text), opts...)
	vxAssert(err == nil, "a text that fits was refused")
	g := vxGrid(q)
	vxAssert(len(g) == vxSize(ver), "wrong symbol size")
	if chk&4 != 0 {
		vxCheckFixed(g, ver, lv)
	}
	if chk&3 != 0 {
		mask := vxReadFormat(g, lv)
		kind, _ := vxLayout(ver)
		bits := vxReadBits(g, kind, mask)
		vxAssert(len(bits) == vxRawModules(ver), "oracle: layout size")
		bl := vxDeinterleave(bits, ver, lv)
		if chk&2 != 0 {
			vxCheckBlocks(bl, vxParam("rs"))
		}
		if chk&1 != 0 {
			var data []byte
			for _, b := range bl {
				data = append(data, b.data...)
			}
			vxDecode(data, ver, mode, vals)
		}
	}
	vxReach("done")
}
