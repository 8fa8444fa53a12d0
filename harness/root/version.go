package qrcode

// vxFiller is a text of n characters of a mode whose first sym characters are symbolic.
func vxFiller(mode, n, sym int) string {
	if sym > n {
		sym = n
	}
	b, _ := vxText(mode, sym)
	for i := sym; i < n; i++ {
		switch mode {
		case 1:
			b = append(b, '0'+byte(i%10))
		case 2:
			b = append(b, vxAlnum[i%45])
		case 4:
			b = append(b, byte(i*7))
		case 8:
			b = append(b, "茗荷"[(i&1)*3:(i&1)*3+3]...)
		}
	}
	return string(b)
}

// vxWantVersion is the version a text of n characters needs, 0 if none.
func vxWantVersion(lv, mode, n, min int) int {
	for v := 1; v <= 40; v++ {
		if vxCap(v, lv, mode) >= n {
			if v < min {
				return min
			}
			return v
		}
	}
	return 0
}

// vxhVersion: version chosen, or error, for a text of n characters; the library gets
// expl (0: none) and min (0: none).
func vxhVersion() {
	lv, mode, n := vxParam("lv"), vxParam("mode"), vxParam("n")
	expl, min := vxParam("expl"), vxParam("min")
	opts := []EncodeOption{WithErrorCorrectionLevel(ecLevel(lv))}
	if vxParam("auto") == 0 {
		opts = append(opts, WithEncodingMode(vxMode(mode)))
	}
	if min != 0 {
		opts = append(opts, WithMinimumVersion(min))
	}
	if expl != 0 {
		opts = append(opts, WithVersion(expl))
	}
	want := vxWantVersion(lv, mode, n, min)
	if expl != 0 {
		want = expl
		if vxCap(expl, lv, mode) < n {
			want = 0
		}
	}
	sym := 3
	if vxParam("auto") != 0 && mode == 4 {
		sym = 1
	}
	text := vxFiller(mode, n, sym)
	if vxParam("auto") != 0 && n > 3 {
		// keep the mode unambiguous
		switch mode {
		case 2:
			text = text[:n-1] + "Z"
		case 4:
			text = text[:n-1] + "z"
		}
	}
	q, err := NewWith(text, opts...)
	if want == 0 {
		vxAssert(err != nil, "a text that fits no allowed version was accepted")
		vxReach("refused")
		return
	}
	vxAssert(err == nil, "a text that fits was refused")
	vxAssert(q.Dimension() == vxSize(want), "wrong version chosen")
	if vxParam("grid") != 0 {
		g := vxGrid(q)
		vxAssert(len(g) == vxSize(want), "wrong symbol size")
	}
	vxReach("done")
}

// vxhVersionAll: the version analysis for every length around every capacity, or
// (all=1) for every length.
func vxhVersionAll() {
	lv, mode := vxParam("lv"), vxParam("mode")
	var n int
	if vxParam("all") != 0 {
		n = vxSplit(vxInt("n", vxParam("lo"), vxParam("hi")))
		if n > vxCap(40, lv, mode)+3 {
			return
		}
	} else {
		v := vxSplit(vxInt("v", 1, 40))
		d := vxSplit(vxInt("d", 0, 2))
		n = vxCap(v, lv, mode) + d - 1
	}
	text := vxFiller(mode, n, 0)
	ver, err := analyzeVersion(text, ecLevel(lv), vxMode(mode))
	want := vxWantVersion(lv, mode, n, 0)
	if want == 0 {
		vxAssert(err != nil, "a text that fits no version was accepted")
		return
	}
	vxAssert(err == nil, "a text that fits was refused")
	vxAssert(ver.Ver == want, "wrong version chosen")
	vxReach("done")
}
