package qrcode

// Independent reading of ISO/IEC 18004 used as the oracle: symbol structure,
// function pattern map, format/version words, masks, block structure and the
// bit stream decoder. Nothing here uses the library's tables.

var vxEccLen = [4][41]int{
	{0, 7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28, 28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
	{0, 10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26, 26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28},
	{0, 13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30, 28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
	{0, 17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28, 30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30},
}

var vxNumBlocks = [4][41]int{
	{0, 1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8, 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25},
	{0, 1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16, 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49},
	{0, 1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20, 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68},
	{0, 1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25, 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81},
}

const vxAlnum = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:"

func vxSize(ver int) int { return 17 + 4*ver }

// vxRawModules is the number of modules left for data, parity and remainder bits.
func vxRawModules(ver int) int {
	r := (16*ver+128)*ver + 64
	if ver >= 2 {
		n := ver/7 + 2
		r -= (25*n-10)*n - 55
		if ver >= 7 {
			r -= 36
		}
	}
	return r
}

func vxDataWords(ver, lv int) int {
	return vxRawModules(ver)/8 - vxEccLen[lv-1][ver]*vxNumBlocks[lv-1][ver]
}

// mode is the four bit indicator: 1 numeric, 2 alphanumeric, 4 byte, 8 kanji.
func vxCountBits(ver, mode int) int {
	k := 0
	if ver > 26 {
		k = 2
	} else if ver > 9 {
		k = 1
	}
	switch mode {
	case 1:
		return [3]int{10, 12, 14}[k]
	case 2:
		return [3]int{9, 11, 13}[k]
	case 4:
		return [3]int{8, 16, 16}[k]
	case 8:
		return [3]int{8, 10, 12}[k]
	}
	return 0
}

func vxDataBits(mode, n int) int {
	switch mode {
	case 1:
		return n/3*10 + [3]int{0, 4, 7}[n%3]
	case 2:
		return n/2*11 + n%2*6
	case 4:
		return n * 8
	}
	return n * 13
}

// vxCap is the number of characters (bytes for byte mode) that fit.
func vxCap(ver, lv, mode int) int {
	room := vxDataWords(ver, lv)*8 - 4 - vxCountBits(ver, mode)
	n := 0
	switch mode {
	case 1:
		n = room / 10 * 3
		if room%10 >= 7 {
			n += 2
		} else if room%10 >= 4 {
			n++
		}
	case 2:
		n = room / 11 * 2
		if room%11 >= 6 {
			n++
		}
	case 4:
		n = room / 8
	case 8:
		n = room / 13
	}
	return n
}

func vxAlignPos(ver int) []int {
	if ver == 1 {
		return nil
	}
	n := ver/7 + 2
	step := (ver*8 + n*3 + 5) / (n*4 - 4) * 2
	out := make([]int, n)
	out[0] = 6
	for i, p := n-1, vxSize(ver)-7; i >= 1; i, p = i-1, p-step {
		out[i] = p
	}
	return out
}

// Kinds of module.
const (
	vxkData = iota
	vxkFinder
	vxkSep
	vxkTiming
	vxkAlign
	vxkFormat
	vxkVersion
	vxkDark
)

// vxLayout gives the kind of every module and, for fixed patterns, its colour; [y][x].
func vxLayout(ver int) (kind [][]int, dark [][]bool) {
	n := vxSize(ver)
	kind = make([][]int, n)
	dark = make([][]bool, n)
	for y := range kind {
		kind[y] = make([]int, n)
		dark[y] = make([]bool, n)
	}
	put := func(x, y, k int, d bool) {
		if x >= 0 && y >= 0 && x < n && y < n {
			kind[y][x] = k
			dark[y][x] = d
		}
	}
	for i := 0; i < n; i++ {
		put(i, 6, vxkTiming, i%2 == 0)
		put(6, i, vxkTiming, i%2 == 0)
	}
	ap := vxAlignPos(ver)
	for i, cx := range ap {
		for j, cy := range ap {
			l := len(ap) - 1
			if i == 0 && j == 0 || i == 0 && j == l || i == l && j == 0 {
				continue
			}
			for dy := -2; dy <= 2; dy++ {
				for dx := -2; dx <= 2; dx++ {
					a := vxAbs(dx)
					if vxAbs(dy) > a {
						a = vxAbs(dy)
					}
					put(cx+dx, cy+dy, vxkAlign, a != 1)
				}
			}
		}
	}
	for c := 0; c < 3; c++ {
		cx, cy := 3, 3
		if c == 1 {
			cx = n - 4
		}
		if c == 2 {
			cy = n - 4
		}
		for dy := -4; dy <= 4; dy++ {
			for dx := -4; dx <= 4; dx++ {
				a := vxAbs(dx)
				if vxAbs(dy) > a {
					a = vxAbs(dy)
				}
				if a == 4 {
					put(cx+dx, cy+dy, vxkSep, false)
				} else {
					put(cx+dx, cy+dy, vxkFinder, a != 2)
				}
			}
		}
	}
	for i := 0; i < 15; i++ {
		a, b := vxFmtPos(n, i)
		put(a[0], a[1], vxkFormat, false)
		put(b[0], b[1], vxkFormat, false)
	}
	put(8, n-8, vxkDark, true)
	if ver >= 7 {
		for i := 0; i < 18; i++ {
			put(n-11+i%3, i/3, vxkVersion, false)
			put(i/3, n-11+i%3, vxkVersion, false)
		}
	}
	return
}

func vxAbs(a int) int {
	if a < 0 {
		return -a
	}
	return a
}

// vxFmtPos gives the two places of format bit i (0 = least significant), as x,y.
func vxFmtPos(n, i int) (a, b [2]int) {
	switch {
	case i <= 5:
		a = [2]int{8, i}
	case i == 6:
		a = [2]int{8, 7}
	case i == 7:
		a = [2]int{8, 8}
	case i == 8:
		a = [2]int{7, 8}
	default:
		a = [2]int{14 - i, 8}
	}
	if i < 8 {
		b = [2]int{n - 1 - i, 8}
	} else {
		b = [2]int{8, n - 15 + i}
	}
	return
}

// vxFmtWord is the 15 bit format word of a level (1..4 = L,M,Q,H) and mask.
func vxFmtWord(lv, mask int) int {
	d := [4]int{1, 0, 3, 2}[lv-1]<<3 | mask
	r := d
	for i := 0; i < 10; i++ {
		r = r<<1 ^ (r>>9)*0x537
	}
	return (d<<10 | r) ^ 0x5412
}

func vxVerWord(ver int) int {
	r := ver
	for i := 0; i < 12; i++ {
		r = r<<1 ^ (r>>11)*0x1f25
	}
	return ver<<12 | r
}

func vxMaskBit(mask, x, y int) bool {
	switch mask {
	case 0:
		return (x+y)%2 == 0
	case 1:
		return y%2 == 0
	case 2:
		return x%3 == 0
	case 3:
		return (x+y)%3 == 0
	case 4:
		return (x/3+y/2)%2 == 0
	case 5:
		return x*y%2+x*y%3 == 0
	case 6:
		return (x*y%2+x*y%3)%2 == 0
	}
	return ((x+y)%2+x*y%3)%2 == 0
}

// vxReadBits walks the data modules in placement order and removes the mask.
func vxReadBits(g [][]bool, kind [][]int, mask int) []bool {
	n := len(g)
	var out []bool
	up := true
	for right := n - 1; right >= 1; right -= 2 {
		if right == 6 {
			right = 5
		}
		for i := 0; i < n; i++ {
			y := i
			if up {
				y = n - 1 - i
			}
			for j := 0; j < 2; j++ {
				x := right - j
				if kind[y][x] == vxkData {
					out = append(out, g[y][x] != vxMaskBit(mask, x, y))
				}
			}
		}
		up = !up
	}
	return out
}

func vxBitsToByte(b []bool) byte {
	var v byte
	for i := 0; i < 8; i++ {
		v <<= 1
		if b[i] {
			v |= 1
		}
	}
	return v
}

type vxBlock struct{ data, ecc []byte }

// vxDeinterleave splits the codeword sequence into error correction blocks.
func vxDeinterleave(bits []bool, ver, lv int) []vxBlock {
	total := vxRawModules(ver) / 8
	words := make([]byte, total)
	for i := range words {
		words[i] = vxBitsToByte(bits[i*8 : i*8+8])
	}
	nb, ne := vxNumBlocks[lv-1][ver], vxEccLen[lv-1][ver]
	short := nb - total%nb
	slen := total/nb - ne
	bl := make([]vxBlock, nb)
	k := 0
	for i := 0; i <= slen; i++ {
		for j := range bl {
			if i < slen || j >= short {
				bl[j].data = append(bl[j].data, words[k])
				k++
			}
		}
	}
	for i := 0; i < ne; i++ {
		for j := range bl {
			bl[j].ecc = append(bl[j].ecc, words[k])
			k++
		}
	}
	return bl
}

// vxSyndrome evaluates the block polynomial at alpha^i.
func vxSyndrome(b vxBlock, i int) byte {
	a := byte(1)
	for ; i > 0; i-- {
		a = vxMul2(a)
	}
	var s byte
	for _, w := range b.data {
		s = vxGmul(s, a) ^ w
	}
	for _, w := range b.ecc {
		s = vxGmul(s, a) ^ w
	}
	return s
}

func vxMul2(a byte) byte { return a<<1 ^ (a>>7)*0x1d }

// vxGmul multiplies in GF(256); c is concrete.
func vxGmul(s, c byte) byte {
	var r byte
	for c != 0 {
		if c&1 != 0 {
			r ^= s
		}
		s = vxMul2(s)
		c >>= 1
	}
	return r
}

// vxStream reads bits of the data codewords.
type vxStream struct {
	b   []byte
	pos int
}

func (s *vxStream) left() int { return len(s.b)*8 - s.pos }
func (s *vxStream) get(n int) int {
	v := 0
	for i := 0; i < n; i++ {
		v = v<<1 | int(s.b[s.pos>>3]>>uint(7-s.pos&7)&1)
		s.pos++
	}
	return v
}
