package qrcode

// vxPenalty is the penalty of ISO/IEC 18004 7.8.3: N1 runs of 5 and more, N2 2x2
// blocks, N3 finder-like pattern with four light modules on a side (inside the
// symbol), N4 share of dark modules.
func vxPenalty(g [][]bool) int {
	n := len(g)
	p := 0
	run := func(at func(i int) bool) {
		// a run of length L>=5 counts 3+(L-5): the window of five starting it counts
		// three, every further window one
		for i := 0; i+5 <= n; i++ {
			a := at(i)
			same := true
			for k := 1; k < 5; k++ {
				if at(i+k) != a {
					same = false
				}
			}
			d := 0
			if same {
				d = 3
				if i > 0 && at(i-1) == a {
					d = 1
				}
			}
			p += d
		}
	}
	pat := func(at func(i int) bool) {
		const s = "10111010000"
		for i := 0; i+11 <= n; i++ {
			f, b := true, true
			for k := 0; k < 11; k++ {
				if at(i+k) != (s[k] == '1') {
					f = false
				}
				if at(i+k) != (s[10-k] == '1') {
					b = false
				}
			}
			if f {
				p += 40
			}
			if b {
				p += 40
			}
		}
	}
	dark := 0
	for y := 0; y < n; y++ {
		row := func(i int) bool { return g[y][i] }
		col := func(i int) bool { return g[i][y] }
		run(row)
		run(col)
		pat(row)
		pat(col)
		for x := 0; x < n; x++ {
			if g[y][x] {
				dark++
			}
			if x+1 < n && y+1 < n {
				a := g[y][x]
				if g[y][x+1] == a && g[y+1][x] == a && g[y+1][x+1] == a {
					p += 3
				}
			}
		}
	}
	// k steps of five percent between the share and 50%
	t := n * n
	for k := 1; k <= 10; k++ {
		if 20*dark <= (10-k)*t || 20*dark >= (10+k)*t {
			p += 10
		}
	}
	return p
}

// vxRemask is the symbol g (which uses mask from) as it looks with mask to.
func vxRemask(g [][]bool, ver, lv, from, to int) [][]bool {
	kind, _ := vxLayout(ver)
	n := len(g)
	h := make([][]bool, n)
	for y := range h {
		h[y] = make([]bool, n)
		for x := range h[y] {
			h[y][x] = g[y][x]
			if kind[y][x] == vxkData && vxMaskBit(from, x, y) != vxMaskBit(to, x, y) {
				h[y][x] = !g[y][x]
			}
		}
	}
	w := vxFmtWord(lv, to)
	for i := 0; i < 15; i++ {
		a, b := vxFmtPos(n, i)
		h[a[1]][a[0]] = w>>uint(i)&1 == 1
		h[b[1]][b[0]] = w>>uint(i)&1 == 1
	}
	return h
}

// vxhMask: the selected mask has the least penalty of all eight.
func vxhMask() {
	ver, lv := vxParam("ver"), vxParam("lv")
	text, _, _, _, _ := vxPattern(vxParamS("pat"))
	opts := []EncodeOption{WithErrorCorrectionLevel(ecLevel(lv)), WithVersion(ver)}
	if m := vxParam("mode"); m != 0 {
		opts = append(opts, WithEncodingMode(vxMode(m)))
	}
	q, err := NewWith(string(text), opts...)
	vxAssert(err == nil, "a text that fits was refused")
	g := vxGrid(q)
	vxAssert(len(g) == vxSize(ver), "wrong symbol size")
	mask := vxReadFormat(g, lv)
	best := vxPenalty(g)
	for k := 0; k < 8; k++ {
		if k == mask {
			continue
		}
		p := vxPenalty(vxRemask(g, ver, lv, mask, k))
		vxAssert(best <= p, "another mask has a lower penalty than the selected one")
	}
	vxReach("done")
}
