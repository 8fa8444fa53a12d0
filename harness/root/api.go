package qrcode

import (
	"errors"
	"sync"
)

// vxhHist: what was built before does not change a symbol, nor does building with the
// same option values again.
func vxhHist() {
	text, _, _, _, _ := vxPattern(vxParamS("pat"))
	opts := vxOpts()
	q1, err := NewWith(string(text), opts...)
	vxAssert(err == nil, "a text that fits was refused")
	g1 := vxGrid(q1)
	// other symbols in between, with the same option values and with others
	hv := vxParam("hv")
	o2 := append([]EncodeOption{}, opts...)
	o2 = append(o2, WithVersion(hv), WithErrorCorrectionLevel(ecLevel(1+hv%4)))
	same := make([]byte, len(text))
	for i := range same {
		same[i] = '7'
	}
	_, _ = NewWith(string(same), opts...)
	_, _ = NewWith("7", opts...)
	_, _ = NewWith(string(make([]byte, 3000)), opts...) // refused
	q3, err := NewWith("other text", o2[0], WithEncodingMode(EncModeByte), o2[len(o2)-2], o2[len(o2)-1])
	vxAssert(err == nil, "a text that fits was refused")
	vxAssert(q3.Dimension() == vxSize(hv), "wrong symbol size")
	q2, err := NewWith(string(text), opts...)
	vxAssert(err == nil, "a text that fits was refused the second time")
	vxAssert(vxSameGrid(g1, vxGrid(q2)), "the symbol depends on what was built before")
	vxAssert(vxSameGrid(g1, vxGrid(q1)), "a symbol changed after it was built")
	vxReach("done")
}

// vxhRace: symbols built and saved concurrently, with the same option values.
func vxhRace() {
	text, _, _, _, _ := vxPattern(vxParamS("pat"))
	opts := vxOpts()
	ob := opts
	if v := vxParam("vb"); v != 0 {
		ob = append(append([]EncodeOption{}, opts...), WithVersion(v))
	}
	var ga, gb [][]bool
	var ea, eb error
	var wg sync.WaitGroup
	wg.Add(2)
	run := func(o []EncodeOption, g *[][]bool, e *error) {
		defer wg.Done()
		q, err := NewWith(string(text), o...)
		*e = err
		if err == nil {
			*g = vxGrid(q)
		}
	}
	go run(opts, &ga, &ea)
	go run(ob, &gb, &eb)
	wg.Wait()
	vxAssert(ea == nil && eb == nil, "a text that fits was refused")
	q, err := NewWith(string(text), opts...)
	vxAssert(err == nil, "a text that fits was refused")
	vxAssert(vxSameGrid(vxGrid(q), ga), "a symbol built concurrently differs")
	q, err = NewWith(string(text), ob...)
	vxAssert(err == nil, "a text that fits was refused")
	vxAssert(vxSameGrid(vxGrid(q), gb), "a symbol built concurrently differs")
	vxReach("done")
}

type vxStr string
type vxByt []byte

// vxhOptions: any values of the options; those out of range count as not given.
func vxhOptions() {
	text, num, aln, kan, _ := vxPattern(vxParamS("pat"))
	which := vxParam("which")
	ver, min, lv := 0, 0, 3
	var mode encMode
	var opts []EncodeOption
	split := func(v int) int {
		if vxParam("wide") != 0 {
			return v // out of range altogether
		}
		return vxSplit(v)
	}
	if which&1 != 0 {
		v := split(vxInt("ver", vxParam("lo"), vxParam("hi")))
		opts = append(opts, WithVersion(v))
		if v >= 1 && v <= 40 {
			ver = v
		}
	}
	if which&2 != 0 {
		v := split(vxInt("min", vxParam("lo"), vxParam("hi")))
		opts = append(opts, WithMinimumVersion(v))
		if v >= 1 && v <= 40 {
			min = v
		}
	}
	if which&4 != 0 {
		v := vxSplit(vxInt("lv", -2, 7))
		opts = append(opts, WithErrorCorrectionLevel(ecLevel(v)))
		if v >= 1 && v <= 4 {
			lv = v
		}
	}
	if which&8 != 0 {
		v := vxSplit(vxInt("mode", 0, 70))
		mode = encMode(v)
		opts = append(opts, WithEncodingMode(mode))
	}
	// given again, the last value in range counts
	if which&16 != 0 {
		v := vxSplit(vxInt("ver2", vxParam("lo2"), vxParam("hi2")))
		opts = append(opts, WithVersion(v))
		if v >= 1 && v <= 40 {
			ver = v
		}
	}
	if which&32 != 0 {
		v := vxSplit(vxInt("lv2", 0, 5))
		opts = append(opts, WithErrorCorrectionLevel(ecLevel(v)))
		if v >= 1 && v <= 4 {
			lv = v
		}
	}
	if which&64 != 0 {
		v := vxSplit(vxInt("min2", vxParam("lo2"), vxParam("hi2")))
		opts = append(opts, WithMinimumVersion(v))
		if v >= 1 && v <= 40 {
			min = v
		}
	}
	var q *QRCode
	var err error
	switch vxParam("type") {
	case 0:
		q, err = NewWith(string(text), opts...)
	case 1:
		q, err = NewWith(text, opts...)
	case 2:
		q, err = NewWith(vxStr(text), opts...)
	case 3:
		q, err = NewWith(vxByt(text), opts...)
	case 4:
		q, err = New(string(text))
	case 5:
		q, err = New(vxByt(text))
	}
	md := 0
	switch mode {
	case EncModeAuto:
		switch {
		case num:
			md = 1
		case aln:
			md = 2
		case kan:
			md = 8
		default:
			md = 4
		}
	case EncModeNumeric:
		if num {
			md = 1
		}
	case EncModeAlphanumeric:
		if aln {
			md = 2
		}
	case EncModeKanji:
		if kan {
			md = 8
		}
	case EncModeByte:
		md = 4
	}
	md = vxSplit(md)
	if md == 0 {
		vxAssert(err != nil && q == nil, "a mode that cannot encode the text was accepted")
		vxReach("refused")
		return
	}
	n := len(text)
	if md == 8 {
		n /= 3
	}
	want := vxWantVersion(lv, md, n, min)
	if ver != 0 {
		want = ver
		if vxCap(ver, lv, md) < n {
			want = 0
		}
	}
	if want == 0 {
		vxAssert(err != nil && q == nil, "a text that does not fit was accepted")
		vxReach("too long")
		return
	}
	vxAssert(err == nil && q != nil, "a text that fits was refused")
	vxAssert(q.Dimension() == vxSize(want), "wrong symbol size")
	g := vxGrid(q)
	vxReadFormat(g, lv) // asserts the level
	vxReach("done")
}

// vxhTypes: the kind of every module as writers see it.
func vxhTypes() {
	text, _, _, _, _ := vxPattern(vxParamS("pat"))
	ver := vxParam("ver")
	q, err := NewWith(string(text), vxOpts()...)
	vxAssert(err == nil, "a text that fits was refused")
	w := &vxCapW{}
	vxAssert(q.Save(w) == nil && w.m != nil, "saving the symbol failed")
	kind, _ := vxLayout(ver)
	bad := false
	w.m.Iterate(IterDirection_ROW, func(x, y int, s QRValue) {
		want := QRType_DATA
		switch kind[y][x] {
		case vxkFinder:
			want = QRType_FINDER
		case vxkSep:
			want = QRType_SPLITTER
		case vxkTiming:
			want = QRType_TIMING
		case vxkDark:
			want = QRType_DARK
		case vxkFormat:
			want = QRType_FORMAT
		case vxkVersion:
			want = QRType_VERSION
		}
		if kind[y][x] == vxkAlign && (x == 6 || y == 6) && s.Type() == QRType_TIMING {
			want = QRType_TIMING // both patterns: either type
		}
		if s.Type() != want {
			bad = true
		}
	})
	vxAssert(!bad, "a module is reported with the wrong type")
	vxReach("done")
}

// vxhMatrix: every way of reading the matrix agrees.
func vxhMatrix() {
	n := vxParam("n")
	types := []QRType{QRType_INIT, QRType_DATA, QRType_VERSION, QRType_FORMAT, QRType_FINDER, QRType_DARK, QRType_SPLITTER, QRType_TIMING}
	m := newMatrix(n, n)
	want := make([][]qrvalue, n) // [y][x]
	for y := 0; y < n; y++ {
		want[y] = make([]qrvalue, n)
		for x := 0; x < n; x++ {
			b := qrvalue(0)
			if vxBool(vxName("m", y*n+x)) {
				b = 1
			}
			want[y][x] = qrvalue(types[(x*3+y)%8]) | b
			vxAssert(m.set(x, y, want[y][x]) == nil, "setting a module failed")
		}
	}
	vxAssert(m.Width() == n && m.Height() == n, "wrong matrix size")
	bad := false
	read := func(m *Matrix) {
		k := 0
		m.Iterate(IterDirection_ROW, func(x, y int, s QRValue) {
			if x != k%n || y != k/n || s != want[y][x] || s.IsSet() != (want[y][x]&1 == 1) || s.Type() != types[(x*3+y)%8] {
				bad = true
			}
			k++
		})
		vxAssert(k == n*n, "iteration by rows did not visit every module once")
		k = 0
		m.Iterate(IterDirection_COLUMN, func(x, y int, s QRValue) {
			if y != k%n || x != k/n || s != want[y][x] {
				bad = true
			}
			k++
		})
		vxAssert(k == n*n, "iteration by columns did not visit every module once")
		bm := m.Bitmap()
		vxAssert(len(bm) == n, "wrong bitmap size")
		for y := 0; y < n; y++ {
			row, col := m.Row(y), m.Col(y)
			vxAssert(len(row) == n && len(col) == n && len(bm[y]) == n, "wrong length of a row or column")
			for x := 0; x < n; x++ {
				if row[x] != want[y][x] || col[x] != want[x][y] || bm[y][x] != (want[y][x]&1 == 1) {
					bad = true
				}
			}
		}
		vxAssert(m.Row(-1) == nil && m.Row(n) == nil && m.Col(-1) == nil && m.Col(n) == nil, "a row or column outside the matrix is not nil")
	}
	read(m)
	vxAssert(!bad, "two ways of reading the matrix disagree")
	// copies are independent
	c := m.Copy()
	bm := m.Bitmap()
	row := m.Row(0)
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			_ = c.set(x, y, want[y][x]^1)
			bm[y][x] = !bm[y][x]
		}
		row[y] ^= 1
	}
	read(m)
	vxAssert(!bad, "changing a copy changed the matrix")
	for y := 0; y < n; y++ {
		for x := 0; x < n; x++ {
			want[y][x] ^= 1
		}
	}
	read(c)
	vxAssert(!bad, "a copy does not hold what was written to it")
	vxAssert(m.set(-1, 0, QRValue_DATA_V1) != nil && m.set(n, 0, QRValue_DATA_V1) != nil && m.set(0, -1, QRValue_DATA_V1) != nil && m.set(0, n, QRValue_DATA_V1) != nil, "setting a module outside the matrix is not an error")
	vxReach("done")
}

var vxErrW, vxErrC = errors.New("write failed"), errors.New("close failed")

type vxSaveW struct {
	werr, cerr error
	wpanic     bool
	log        []int
	m          *Matrix
}

func (w *vxSaveW) Write(m Matrix) error {
	w.log = append(w.log, 1)
	w.m = &m
	if w.wpanic {
		panic(vxErrW)
	}
	return w.werr
}

func (w *vxSaveW) Close() error {
	w.log = append(w.log, 2)
	return w.cerr
}

// vxhSave: Save writes once, then closes once, and reports the writer's error.
func vxhSave() {
	text, _, _, _, _ := vxPattern(vxParamS("pat"))
	q, err := NewWith(string(text), vxOpts()...)
	vxAssert(err == nil, "a text that fits was refused")
	g := vxGrid(q)
	for i := 0; i < 3; i++ {
		w := &vxSaveW{}
		if vxBool(vxName("w", i)) {
			w.werr = vxErrW
		}
		if vxBool(vxName("c", i)) {
			w.cerr = vxErrC
		}
		if i == 1 {
			w.wpanic = vxBool("p")
		}
		var got error
		panicked := false
		func() {
			defer func() {
				if r := recover(); r != nil {
					panicked = true
				}
			}()
			got = q.Save(w)
		}()
		vxAssert(panicked == w.wpanic, "a panic of the writer was lost")
		if !panicked {
			vxAssert(got == w.werr, "the error of the writer was not returned as it is")
		}
		vxAssert(len(w.log) == 2 && w.log[0] == 1 && w.log[1] == 2, "the writer was not written once and then closed once")
		n := w.m.Width()
		vxAssert(n == len(g), "wrong matrix size")
		bad := false
		cnt := 0
		w.m.Iterate(IterDirection_COLUMN, func(x, y int, s QRValue) {
			if s.IsSet() != g[y][x] {
				bad = true
			}
			cnt++
		})
		vxAssert(cnt == n*n && !bad, "a later save got a different symbol")
	}
	vxAssert(q.Save(nil) == nil, "saving to no writer failed")
	vxAssert(vxSameGrid(g, vxGrid(q)), "the symbol changed by being saved")
	vxReach("done")
}

// vxUnits makes a text of n characters of a mode, with one symbolic unit, and the
// values that a decoder reads.
func vxUnits(nm string, mode, n int) (text []byte, vals []int) {
	s := n / 2
	for i := 0; i < n; i++ {
		switch mode {
		case 1:
			b := byte('0' + i%10)
			if i == s {
				b = '0' + vxU8R(nm, 0, 9)
			}
			text, vals = append(text, b), append(vals, int(b-'0'))
		case 2:
			k := byte(10 + i%35)
			if i == s {
				k = vxU8R(nm, 10, 44)
			}
			text, vals = append(text, vxAlnum[k]), append(vals, int(k))
		case 4:
			b := byte('a' + i%26)
			if i == s {
				b = vxU8R(nm, 'a', 'p')
			}
			text, vals = append(text, b), append(vals, int(b))
		case 8:
			r := '茗'
			if i%2 == 1 {
				r = '点'
			}
			text, vals = append(text, string(r)...), append(vals, vxKanjiVal(int(r)))
		}
	}
	return
}

// vxhPairs: two texts, each built twice in turn; every symbol is as small as it can be
// and decodes to its text, and both times it is the same.
func vxhPairs() {
	lv := [2]int{vxParam("lv"), vxParam("lvb")}
	md := [2]int{vxParam("mode"), vxParam("modeb")}
	n := [2]int{vxParam("n"), vxParam("nb")}
	var g [2][][]bool
	var text [2][]byte
	var vals [2][]int
	for i := range text {
		text[i], vals[i] = vxUnits(vxName("c", i), md[i], n[i])
	}
	for k := 0; k < 4; k++ {
		i := k % 2
		opts := []EncodeOption{WithErrorCorrectionLevel(ecLevel(lv[i]))}
		if vxParam("req") != 0 {
			opts = append(opts, WithEncodingMode(vxMode(md[i])))
		}
		ver := 1
		for ver < 40 && vxCap(ver, lv[i], md[i]) < n[i] {
			ver++
		}
		if vxParam("fix") != 0 && ver < 40 {
			ver++
			opts = append(opts, WithVersion(ver))
		}
		q, err := NewWith(string(text[i]), opts...)
		vxAssert(err == nil, "a text that fits was refused")
		gr := vxGrid(q)
		if k >= 2 {
			vxAssert(vxSameGrid(gr, g[i]), "the symbol depends on what was built before")
			continue
		}
		vxAssert(len(gr) == vxSize(ver), "wrong symbol size")
		g[i] = gr
		data, _ := vxSymbolData(gr, lv[i])
		vxDecode(data, ver, md[i], vals[i])
	}
	vxReach("done")
}
