package qrcode

// vxPattern makes a text from a pattern: d digit, a any of the 45 alphanumerics,
// l any ASCII byte, B any byte, k any character of a CJK page, K a kanji of JIS X
// 0208, other characters stand for themselves. ok[m] says whether every character is
// in the set of mode m.
func vxPattern(pat string) (text []byte, num, aln, kan bool, kv []int) {
	num, aln, kan = true, true, true
	for i := 0; i < len(pat); i++ {
		nm := vxName(pat[i:i+1], i)
		switch pat[i] {
		case 'd':
			text = append(text, '0'+vxU8R(nm, 0, 9))
		case 'a':
			text = append(text, vxAlnum[vxU8R(nm, 0, 44)])
		case 'l':
			text = append(text, vxU8R(nm, 0, 127))
		case 'B':
			text = append(text, vxU8(nm))
		case 'k', 'K':
			u, v := vxKanjiChar(nm, vxParam("page")+i*13%64, pat[i] == 'k')
			text = append(text, u...)
			_ = v
		case 'E':
			text = append(text, 0xe8) // leads a three-byte sequence
		case 'X':
			text = append(text, 0x8c) // a continuation byte
		case 'F':
			text = append(text, 0xf0)
		default:
			text = append(text, pat[i])
		}
	}
	// the sets, read from the bytes
	for i := 0; i < len(text); {
		b := text[i]
		dig := b >= '0' && b <= '9'
		al := false
		for k := 0; k < 45; k++ {
			if b == vxAlnum[k] {
				al = true
			}
		}
		num = num && dig
		aln = aln && al
		// a kanji is a three-byte sequence e4..e9 80..bf 80..bf
		if i+2 < len(text) && b >= 0xe4 && b <= 0xe9 && text[i+1]&0xc0 == 0x80 && text[i+2]&0xc0 == 0x80 {
			r := int(b&15)<<12 | int(text[i+1]&0x3f)<<6 | int(text[i+2]&0x3f)
			v := vxKanjiVal(r)
			if v >= 0 {
				num, aln = false, false
				kv = append(kv, v)
				i += 3
				continue
			}
		}
		kan = false
		i++
	}
	return
}

func vxAlnumVal(b byte) int {
	v := 0
	for k := 0; k < 45; k++ {
		if vxAlnum[k] == b {
			v = k
		}
	}
	return v
}

// vxSymbolMode reads the symbol: its data codewords and mode indicator.
func vxSymbolData(g [][]bool, lv int) (data []byte, ver int) {
	ver = (len(g) - 17) / 4
	mask := vxReadFormat(g, lv)
	kind, _ := vxLayout(ver)
	for _, b := range vxDeinterleave(vxReadBits(g, kind, mask), ver, lv) {
		data = append(data, b.data...)
	}
	return
}

// vxhAuto: mode detection (mode=0) or acceptance of a requested mode, then decoding.
func vxhAuto() {
	lv, mode := vxParam("lv"), vxParam("mode")
	text, num, aln, kan, kv := vxPattern(vxParamS("pat"))
	opts := []EncodeOption{WithErrorCorrectionLevel(ecLevel(lv))}
	want := 0
	if mode == 0 {
		switch {
		case num:
			want = 1
		case aln:
			want = 2
		case kan:
			want = 8
		default:
			want = 4
		}
	} else {
		opts = append(opts, WithEncodingMode(vxMode(mode)))
		switch {
		case mode == 1 && num, mode == 2 && aln, mode == 4, mode == 8 && kan:
			want = mode
		}
	}
	if vxParam("bytes") != 0 {
		// the same text as a byte slice
		q, err := NewWith(text, opts...)
		vxAutoCheck(q, err, text, kv, lv, want)
		return
	}
	q, err := NewWith(string(text), opts...)
	vxAutoCheck(q, err, text, kv, lv, want)
}

func vxAutoCheck(q *QRCode, err error, text []byte, kv []int, lv, want int) {
	if want == 0 {
		vxAssert(err != nil, "a text with characters outside the requested mode was accepted")
		vxReach("refused")
		return
	}
	vxAssert(err == nil, "a text that can be encoded was refused")
	g := vxGrid(q)
	data, ver := vxSymbolData(g, lv)
	got := int(data[0] >> 4)
	vxAssert(got == want, "the symbol does not use the mode that the text calls for")
	want = vxSplit(want)
	var vals []int
	switch want {
	case 8:
		vals = kv
	default:
		for _, b := range text {
			switch want {
			case 1:
				vals = append(vals, int(b-'0'))
			case 2:
				vals = append(vals, vxAlnumVal(b))
			case 4:
				vals = append(vals, int(b))
			}
		}
	}
	vxDecode(data, ver, want, vals)
	vxReach("done")
}

// vxhKanjiPage: one character of a page of the BMP followed by a fixed kanji.
func vxhKanjiPage() {
	page, lv, mode := vxParam("page"), vxParam("lv"), vxParam("mode")
	lo := vxU8("lo")
	r := page<<8 | int(lo)
	if page >= 0xd8 && page <= 0xdf {
		return
	}
	val := vxKanjiVal(r)
	text := []byte{0xe0 | byte(page>>4), 0x80 | byte(page&15)<<2 | lo>>6, 0x80 | lo&0x3f}
	vals := []int{val}
	if vxParam("two") != 0 {
		text = append(text, "茗"...)
		vals = append(vals, vxKanjiVal('茗'))
	}
	opts := []EncodeOption{WithErrorCorrectionLevel(ecLevel(lv))}
	if mode != 0 {
		opts = append(opts, WithEncodingMode(EncModeKanji))
	}
	q, err := NewWith(string(text), opts...)
	isK := val >= 0
	if mode != 0 && err != nil {
		vxAssert(!isK, "a kanji of JIS X 0208 was refused in Kanji mode")
		vxReach("refused")
		return
	}
	vxAssert(err == nil, "a text that can be encoded was refused")
	data, ver := vxSymbolData(vxGrid(q), lv)
	if data[0]>>4 == 8 {
		vxAssert(isK, "a character that is no kanji of JIS X 0208 was put in a Kanji segment")
		vxDecode(data, ver, 8, vals)
		vxReach("kanji")
		return
	}
	vxAssert(mode == 0 && !isK, "a kanji text was not put in a Kanji segment")
	var bv []int
	for _, b := range text {
		bv = append(bv, int(b))
	}
	vxDecode(data, ver, 4, bv)
	vxReach("byte")
}
