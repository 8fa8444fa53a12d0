package qrcode

func vxSameGrid(a, b [][]bool) bool {
	if len(a) != len(b) {
		return false
	}
	same := true
	for y := range a {
		for x := range a[y] {
			if a[y][x] != b[y][x] {
				same = false
			}
		}
	}
	return same
}

func vxOpts() []EncodeOption {
	opts := []EncodeOption{WithErrorCorrectionLevel(ecLevel(vxParam("lv")))}
	if m := vxParam("mode"); m != 0 {
		opts = append(opts, WithEncodingMode(vxMode(m)))
	}
	if v := vxParam("ver"); v != 0 {
		opts = append(opts, WithVersion(v))
	}
	return opts
}

// vxhDeterm: the same text and options give the same symbol under every order in
// which the goroutines run and their messages arrive.
func vxhDeterm() {
	text, _, _, _, _ := vxPattern(vxParamS("pat"))
	vxSched(0)
	q1, err := NewWith(string(text), vxOpts()...)
	vxAssert(err == nil, "a text that fits was refused")
	g1 := vxGrid(q1)
	vxSched(vxParam("pol"))
	q2, err := NewWith(string(text), vxOpts()...)
	vxAssert(err == nil, "a text that fits was refused the second time")
	g2 := vxGrid(q2)
	vxSched(0)
	vxAssert(vxSameGrid(g1, g2), "the same text and options gave two different symbols")
	vxReach("done")
}
