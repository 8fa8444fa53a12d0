package main

// The writers, the image helpers and the command (C14-C25).

func init() {
	propDefs = append(propDefs,
		&PropDef{ID: "C14", Jobs: jobsC14,
			Bounds:  "matrices of side 1-5 and 21 with every module symbolic, block widths 1-7, 20 (default) and 255, borders given as none, one, two or four values between 0 and 40, symbolic fore- and background colours, opaque and transparent; the symbol written again by the same writer, after another symbol, and by a second writer with the same options",
			Outside: "other sizes; partly transparent colours"},
		&PropDef{ID: "C15", Jobs: jobsC15,
			Bounds:  "matrices of side 1-6 and 21 with every module symbolic, block widths 1-9, unequal borders; custom shape calls and the built-in circle",
			Outside: "the exact outline of a circle (within 1.5 pixels of its radius either answer is accepted)"},
		&PropDef{ID: "C16", Jobs: jobsC16,
			Bounds:  "matrices of side 4-11 with symbolic modules (with a safe zone: 4 symbolic ones under or next to it), logos of 1-12 pixels in both directions with symbolic colours and any origin, multipliers 1-5, borders 0-9, with and without safe zone and custom shape",
			Outside: "translucent logos; larger images"},
		&PropDef{ID: "C17", Jobs: jobsC17,
			Bounds:  "matrices of side 1-5 with every module symbolic; halftone images of exactly 3x3 pixels per module with a fifth of the pixels symbolic and any origin, block widths 3, 6, 9, opaque and transparent; gradients of 1-3 colour stops at eight angles",
			Outside: "scaling of a halftone image of another size; block widths not divisible by three; gradient colours within 2 of 255 of the reference"},
		&PropDef{ID: "C18", Jobs: jobsC18,
			Bounds:  "opaque and translucent colours of ten colour models with symbolic components, and hex strings of both lengths with one symbolic digit at each position, as fore- and as background",
			Outside: "malformed hex strings"},
		&PropDef{ID: "C19", Jobs: jobsC19,
			Bounds:  "all six ways of choosing an encoder, to a stream and to a file that exists and is longer, failing and succeeding encoders, streams and closes; symbolic modules",
			Outside: "the compression done by the image/png and image/jpeg packages (replaced by a model that keeps the pixels; replayed on the real ones)"},
		&PropDef{ID: "C20", Jobs: jobsC20,
			Bounds:  "matrices of side 1-7 and 21 with every module symbolic, block sizes 1-5 and 9, paddings 0-7; stream and file; failing streams",
			Outside: "the compression done by image/png (as in C19)"},
		&PropDef{ID: "C21", Jobs: jobsC21,
			Bounds:  "matrices of side 1-9, 21 and 25 with up to 9 symbolic modules, the others fixed in several patterns",
			Outside: "other contents of large matrices"},
		&PropDef{ID: "C22", Jobs: jobsC22,
			Bounds:  "grey images of up to 4x5 pixels, all symbolic, and colour images with a symbolic pixel at each position, with any origin; symbolic threshold",
			Outside: "the interpolation of Scale to another size"},
		&PropDef{ID: "C23", Jobs: jobsC23,
			Bounds:  "all eight block shapes and both finder shapes on 3x3 (some 4x4) modules with 2-9 symbolic ones, blocks of 6-30 pixels, ratios inside and outside their range",
			Outside: "exact outlines (a margin of 0.8 pixel on either side); the curved corners of the liquid shape and the rounded finder"},
		&PropDef{ID: "C24", Jobs: jobsC24,
			Bounds:  "the whole command run on argument lists with every flag in four spellings, a symbolic text character, symbolic border and block values, seven file names, older files, terminal; malformed borders with a symbolic character at each position, unusable block sizes, texts, paths and flags",
			Outside: "the help texts and exit codes; several unusual flags at once"},
		&PropDef{ID: "C25", Jobs: jobsC25,
			Bounds:  "matrices of side 1-7, 21 and 25 with up to 12 symbolic modules; up to three other events before the key; a terminal that fails; writing twice",
			Outside: "the terminal library (a stand-in that records cells)"},
		&PropDef{ID: "C26", Jobs: jobsC26,
			Bounds:  "main and the function it registers, over a stand-in for syscall/js with the same values, conversions and panics: every option field alone and combinations of all ten, left out or present with a zero value, symbolic text characters, colour digits, levels, widths and margins; missing arguments, other types of argument and of every field, texts too long or outside the mode, invalid colours, widths that do not fit; a further call after each error",
			Outside: "the wasm runtime and the real syscall/js (replaced, on the native build too); numbers that are no integers; negative margins"},
	)
}

func jobsC14(g *gen) {
	k := 0
	px := func(n, bw, nb, b0, b1, b2, b3, col, tr int) {
		k++
		j := g.add("standard", "vxhPixels", P{"n": n, "bw": bw, "nb": nb, "b0": b0, "b1": b1, "b2": b2, "b3": b3, "col": col, "tr": tr, "again": k % 3})
		w := bw
		if w == 0 {
			w = 20
		}
		j.Cost = (n*w + b0 + b2) * (n*w + b1 + b3) / 4
	}
	px(1, 1, 1, 0, 0, 0, 0, 1, 0)
	px(2, 3, 4, 1, 2, 3, 4, 1, 0)
	px(3, 2, 4, 4, 0, 2, 1, 0, 0)
	px(3, 2, 2, 1, 3, 0, 0, 0, 1)
	px(4, 5, 2, 0, 4, 0, 0, 1, 0)
	px(5, 4, 1, 3, 0, 0, 0, 0, 1)
	px(2, 7, 4, 0, 5, 0, 0, 0, 1)
	px(2, 7, 4, 9, 0, 0, 1, 1, 0)
	px(1, 0, 0, 0, 0, 0, 0, 0, 0)
	px(2, 0, 1, 2, 0, 0, 0, 0, 1)
	px(2, 1, 0, 0, 0, 0, 0, 1, 0)
	px(21, 1, 1, 4, 0, 0, 0, 0, 0)
	px(21, 2, 4, 1, 2, 0, 3, 0, 0)
	px(21, 1, 2, 0, 3, 0, 0, 0, 1)
	px(1, 255, 1, 0, 0, 0, 0, 0, 0)
	px(25, 1, 1, 0, 0, 0, 0, 1, 0)
	if g.thorough() {
		for n := 1; n <= 8; n++ {
			for bw := 1; bw <= 8; bw++ {
				for nb := 0; nb <= 4; nb++ {
					if nb != 3 {
						px(n, bw, nb, rot(n, bw)%7, rot(n, bw, 1)%9, rot(n, nb)%5, rot(bw, nb)%8, (n+bw)%2, (n*bw+nb)%3%2)
					}
				}
			}
		}
		for _, n := range []int{21, 25, 29, 57, 101, 177} {
			px(n, 1, 4, 1, 0, 2, 3, 0, 0)
			px(n, 2, 1, 1, 0, 0, 0, 0, 1)
		}
		for _, bw := range []int{16, 31, 64, 127, 128} {
			px(1, bw, 1, 1, 0, 0, 0, 0, 0)
		}
	}
}

func jobsC15(g *gen) {
	sh := func(n, bw, b0, b1, b2, b3 int) {
		g.add("standard", "vxhShape", P{"n": n, "bw": bw, "b0": b0, "b1": b1, "b2": b2, "b3": b3}).Cost = n * n * (bw + 10)
	}
	ci := func(n, bw, b0, b1 int) {
		g.add("standard", "vxhCircle", P{"n": n, "bw": bw, "b0": b0, "b1": b1}).Cost = n * n * bw * bw
	}
	sh(1, 3, 0, 0, 0, 0)
	sh(2, 1, 1, 2, 3, 4)
	sh(3, 5, 4, 1, 0, 2)
	sh(4, 2, 0, 7, 1, 0)
	sh(6, 3, 2, 2, 2, 2)
	sh(21, 1, 0, 3, 1, 2)
	sh(21, 2, 1, 1, 1, 1)
	ci(1, 9, 0, 0)
	ci(2, 7, 1, 3)
	ci(3, 6, 2, 0)
	ci(2, 20, 1, 1)
	ci(4, 5, 0, 1)
	ci(3, 1, 1, 1)
	if g.thorough() {
		for n := 1; n <= 9; n++ {
			for bw := 1; bw <= 9; bw++ {
				sh(n, bw, rot(n, bw)%7, rot(n, bw, 1)%9, rot(n)%5, rot(bw)%8)
				if n <= 4 {
					ci(n, bw*2+1, rot(n, bw)%5, rot(bw)%4)
				}
			}
		}
		sh(25, 3, 1, 2, 3, 4)
		sh(57, 1, 1, 2, 3, 4)
	}
}

func jobsC16(g *gen) {
	lo := func(n, bw, lw, lh, ox, oy, mult int, b [4]int, safe, shape, pat int) {
		g.add("standard", "vxhLogo", P{"n": n, "bw": bw, "lw": lw, "lh": lh, "ox": ox, "oy": oy, "mult": mult,
			"b0": b[0], "b1": b[1], "b2": b[2], "b3": b[3], "safe": safe, "shape": shape, "pat": pat, "again": (n + pat) % 3},
			"redir:(*golang.org/x/image/draw.Kernel).Transform=vxTransform").Cost = n * n * bw * bw * 4
	}
	z := [4]int{}
	lo(5, 4, 4, 4, 0, 0, 0, z, 0, 0, 0)
	lo(5, 4, 5, 4, 0, 0, 0, z, 0, 0, 0) // too wide
	lo(5, 4, 4, 5, 0, 0, 0, z, 1, 0, 1) // too high
	lo(6, 3, 6, 4, 2, -3, 3, [4]int{1, 2, 3, 4}, 0, 0, 0)
	lo(6, 3, 6, 4, -5, 7, 3, [4]int{4, 1, 0, 2}, 1, 0, 1)
	lo(7, 3, 5, 7, 0, 0, 3, [4]int{1, 1, 1, 1}, 1, 0, 2)
	lo(7, 3, 7, 5, 1, 1, 2, [4]int{0, 5, 2, 0}, 1, 0, 3)
	lo(7, 4, 3, 9, 0, 0, 2, [4]int{2, 0, 0, 6}, 1, 1, 4)
	lo(8, 2, 6, 3, 0, 0, 1, [4]int{1, 0, 3, 0}, 1, 1, 5)
	lo(8, 2, 16, 16, 0, 0, 1, z, 1, 0, 6)
	lo(9, 2, 4, 6, 3, 3, 3, z, 0, 1, 0)
	lo(11, 1, 3, 2, 0, 0, 3, [4]int{9, 0, 0, 1}, 1, 1, 7)
	lo(4, 5, 1, 1, 0, 0, 4, [4]int{3, 0, 0, 3}, 1, 0, 8)
	lo(4, 5, 6, 8, 0, 0, 2, [4]int{0, 3, 3, 0}, 1, 1, 9)
	lo(6, 4, 8, 8, 0, 0, 3, z, 1, 0, 10)
	lo(21, 1, 4, 3, 0, 0, 5, [4]int{1, 2, 3, 4}, 1, 0, 11)
	// at, below and over the limit in either direction, images wider than high and
	// higher than wide
	for i := 0; i < 24; i++ {
		n, bw, mult := 5+i%3, 2+i%2, 2+i/2%2
		b := [4]int{0, 4 + i%3, 0, 3}
		if i%4 >= 2 {
			b = [4]int{5, 0, 2 + i%2, 0}
		}
		W, H := n*bw+b[1]+b[3], n*bw+b[0]+b[2]
		lo(n, bw, W/mult+(i/4%3-1), H/mult+(i/12+i/4*2%3-1), i%5-2, i%3, mult, b, i/2%2, 0, i)
	}
	if g.thorough() {
		for n := 4; n <= 9; n++ {
			for bw := 1; bw <= 5; bw++ {
				for k := 0; k < 4; k++ {
					r := func(s, m int) int { return rot(n, bw, k, s) % m }
					lo(n, bw, 1+r(1, n*bw/2+1), 1+r(2, n*bw/2+1), r(3, 9)-4, r(4, 9)-4, 1+r(5, 4), [4]int{r(6, 7), r(7, 5), r(8, 9), r(9, 6)}, 1-k%3/2, k&1, r(10, 50))
				}
			}
		}
	}
}

func jobsC17(g *gen) {
	ht := func(n, bw, b, ox, pos, tr int) {
		g.add("standard", "vxhHalftone", P{"n": n, "bw": bw, "b": b, "ox": ox, "pos": pos, "tr": tr, "again": pos % 2 * 2}).Cost = n * n * bw * bw * 6
	}
	gr := func(n, bw, b, angle, stops int) {
		g.add("standard", "vxhGradient", P{"n": n, "bw": bw, "b": b, "angle": angle, "stops": stops, "again": (n + bw) % 3}).Cost = n * n * bw * bw * 6
	}
	ht(1, 3, 0, 0, 0, 0)
	ht(2, 6, 1, 0, 1, 0)
	ht(3, 3, 2, 4, 2, 1)
	ht(3, 9, 0, -2, 3, 0)
	ht(4, 3, 1, 0, 4, 0)
	ht(5, 3, 0, 0, 1, 1)
	gr(3, 3, 1, 30, 3)
	gr(4, 2, 0, 0, 2)
	gr(3, 4, 2, 90, 2)
	gr(2, 5, 1, 45, 1)
	gr(4, 3, 0, 135, 3)
	gr(3, 2, 3, 200, 2)
	gr(5, 1, 0, 270, 3)
	gr(3, 3, 0, 315, 2)
	if g.thorough() {
		for i := 0; i < 40; i++ {
			r := func(s, m int) int { return rot(i, s) % m }
			ht(1+r(1, 6), 3+3*r(2, 3), r(3, 4), r(4, 9)-4, i%5, i/5%2)
			gr(1+r(5, 6), 1+r(6, 6), r(7, 4), i*9, 1+i%3)
		}
	}
}

func jobsC18(g *gen) {
	for fg := 0; fg < 2; fg++ {
		for k := 0; k <= 9; k++ {
			g.add("standard", "vxhColor", P{"kind": k, "fg": fg})
		}
		for pos := 0; pos < 6; pos++ {
			g.add("standard", "vxhColor", P{"kind": 10, "fg": fg, "pos": pos})
			if pos < 3 {
				g.add("standard", "vxhColor", P{"kind": 11, "fg": fg, "pos": pos})
			}
		}
	}
}

func jobsC19(g *gen) {
	for f := 0; f <= 5; f++ {
		for file := 0; file < 2; file++ {
			g.add("standard", "vxhEncoder", P{"n": 1 + f%4, "bw": 1 + (f+file)%3, "fmt": f, "file": file}, "fs", "codec")
			if g.thorough() {
				g.add("standard", "vxhEncoder", P{"n": 5, "bw": 3, "fmt": f, "file": file}, "fs", "codec")
				g.add("standard", "vxhEncoder", P{"n": 21, "bw": 1, "fmt": f, "file": file}, "fs", "codec")
			}
		}
	}
	g.add("standard", "vxhFail", P{}, "fs", "codec")
}

func jobsC20(g *gen) {
	co := func(n, bs, pad, file int) {
		g.add("compressed", "vxhCompressed", P{"n": n, "bs": bs, "pad": pad, "file": file}, "fs", "codec").Cost = (n*bs + 2*pad) * (n*bs + 2*pad)
	}
	co(1, 1, 0, 1)
	co(2, 3, 1, 0)
	co(3, 1, 4, 1)
	co(4, 2, 0, 0)
	co(5, 1, 7, 0)
	co(3, 5, 2, 1)
	co(7, 2, 3, 0)
	co(2, 9, 5, 0)
	co(21, 1, 4, 0)
	co(21, 2, 1, 0)
	if g.thorough() {
		for n := 1; n <= 7; n++ {
			for bs := 1; bs <= 6; bs++ {
				co(n, bs, rot(n, bs)%9, (n+bs)%2)
			}
		}
		co(25, 3, 2, 1)
		co(57, 1, 4, 0)
		co(177, 1, 4, 0)
	}
}

func jobsC21(g *gen) {
	fl := func(n, k, seed int) {
		g.add("file", "vxhFile", P{"n": n, "k": k, "seed": seed}, "fs").Cost = n * n * 2
	}
	for n := 1; n <= 4; n++ {
		fl(n, 9, n)
	}
	for n := 5; n <= 9; n++ {
		fl(n, 8, n)
		fl(n, 7, n+7)
	}
	for i := 0; i < 4; i++ {
		fl(21, 3, i)
		fl(25, 3, i+3)
	}
	if g.thorough() {
		for i := 0; i < 60; i++ {
			fl(2+rot(i)%8, 9, i)
		}
		for i, n := range []int{21, 25, 29, 33, 57, 101} {
			fl(n, 4, i)
			fl(n, 3, i+10)
		}
	}
}

func jobsC22(g *gen) {
	sizes := [][4]int{{1, 1, 0, 0}, {3, 2, 0, 0}, {2, 3, 5, -3}, {4, 5, -2, 7}}
	for i, s := range sizes {
		p := func(kind, sym int) P {
			return P{"kind": kind, "sym": sym, "w": s[0], "h": s[1], "ox": s[2], "oy": s[3], "tx": i % 3 * 2, "ty": i % 2 * 5}
		}
		for _, h := range []string{"vxhGray", "vxhBinary", "vxhScaleSame"} {
			g.add("imgkit", h, p(0, 0))
			for k := 0; k < s[0]*s[1]; k++ {
				if k == 0 || k == s[0]*s[1]-1 || k == s[0] || g.thorough() {
					g.add("imgkit", h, p(1, k))
				}
			}
		}
	}
}

func jobsC23(g *gen) {
	sh := func(n, bw, b, kind, ratio, finder, sym, fix int) {
		g.add("shapes", "vxhShapes", P{"n": n, "bw": bw, "b": b, "kind": kind, "ratio": ratio, "finder": finder, "sym": sym, "fix": fix}).Cost = bw * bw * 20
	}
	sh(3, 8, 1, 0, 100, 0, 511, 0)
	sh(3, 10, 0, 0, 50, 0, 511, 0)
	sh(3, 7, 2, 0, 5, 0, 511, 0)
	sh(3, 9, 0, 1, 80, 0, 511, 0)
	sh(3, 8, 1, 1, 150, 0, 511, 0)
	sh(3, 12, 0, 1, 40, 0, 186, 68)
	for i, kind := range []int{2, 3, 4, 5, 6} {
		sh(3, 6+i%3, 1, kind, 85-5*i, 0, 186, 68*(i%2))
		sh(3, 7+i%2, 0, kind, 60+i*8, 0, 57, 0x1c6*(1-i%2))
	}
	sh(3, 8, 0, 2, 30, 0, 56, 1)
	sh(3, 8, 0, 3, 130, 0, 146, 1)
	sh(3, 8, 1, 7, 0, 0, 511, 0)
	sh(3, 7, 0, 7, 0, 0, 187, 68)
	sh(3, 7, 1, 0, 80, 1, 187, 0)
	sh(3, 8, 0, 1, 90, 1, 154, 101)
	// larger blocks; rows 7 and 448, columns 73 and 292 have a data module with two
	// neighbours
	for i, kind := range []int{2, 4, 5, 7} {
		sh(3, 20+i, 1, kind, 100, 0, 7, 0x118*(i%2))
		sh(3, 24+i, 0, kind, 70, 0, 448, 0x21*(i%2))
	}
	for i, kind := range []int{3, 4, 6, 7} {
		sh(3, 21+i, 1, kind, 100, 0, 73, 0x104*(i%2))
		sh(3, 23+i, 0, kind, 65, 0, 292, 9*(i%2))
	}
	sh(3, 30, 0, 0, 33, 0, 3, 40)
	sh(3, 30, 0, 1, 100, 0, 3, 40)
	sh(3, 30, 0, 2, 85, 0, 8, 16)
	if g.thorough() {
		for kind := 0; kind <= 7; kind++ {
			for i := 0; i < 6; i++ {
				sym := []int{186, 187, 57, 466, 238, 341}[i]
				sh(3, 6+(i+kind)%6, i%3, kind, 60+i*8, i%2, sym, rot(i, kind)%512)
			}
		}
	}
}

func jobsC24(g *gen) {
	n := 0
	cli := func(text string, p P) *Job {
		q := P{"form": n % 4, "fmt": n % 7}
		for k, v := range p {
			q[k] = v
		}
		if _, ok := q["bsym"]; !ok {
			q["bsym"] = 9
		}
		j := g.add("cli", "vxhCli", q, "fs", "codec", "help")
		j.S = map[string]string{"text": text}
		j.Cost = 3000
		n++
		return j
	}
	bad := func(s string, p P) {
		j := g.add("cli", "vxhCliBad", p, "fs", "codec", "help")
		j.S = map[string]string{"borders": s}
		j.Cost = 2000
	}
	cli("HELLO", P{"block": 1})
	cli("hello", P{"block": 2, "tr": 1, "fmt": 0})
	cli("12345", P{"block": 1, "tsym": 1}).Cost = 9000
	cli("A1", P{"block": 3, "circle": 1, "fmt": 0})
	cli("x y", P{"block": 1, "borders": 1, "old": 1})
	cli("abc", P{"block": 1, "borders": 3, "bsym": 0, "offs": 3})
	cli("abd", P{"block": 1, "borders": 3, "bsym": 1, "offs": 3})
	cli("abe", P{"block": 1, "borders": 5, "bsym": 2, "offs": 3})
	cli("abf", P{"block": 1, "borders": 5, "bsym": 3, "offs": 3})
	cli("abg", P{"block": 1, "bsym": 4, "offs": 4})
	cli("1", P{})
	cli("TERM", P{"term": 1})
	cli("term", P{"term": 1, "circle": 1, "borders": 2, "block": 9})
	cli("7", P{"block": 2, "tr": 2, "more": 1, "fmt": 0})
	cli("q", P{"block": 1, "fmt": 4})
	cli("long text, more than a version one symbol holds", P{"block": 1, "fmt": 6})
	cli("a b", P{"block": 4, "circle": 1, "tr": 1, "fmt": 0, "old": 1})
	if g.thorough() {
		for i := 0; i < 56; i++ {
			cli([]string{"HELLO", "x", "42", "漢字", "a,b", "-"}[i%5], P{"block": 1 + i%3, "fmt": i % 7, "form": i / 7 % 4, "borders": i % 5, "circle": i / 3 % 2, "tr": i % 3, "old": i / 2 % 2})
		}
	}
	bad("1,2,3,4", P{"kind": 0, "pos": 0})
	bad("1,2,3,4", P{"kind": 0, "pos": 2, "old": 1})
	bad("1,2,3,4", P{"kind": 0, "pos": 6})
	bad("1,2,3,4", P{"kind": 0, "pos": 3, "comma": 1})
	bad("1,2,34,4", P{"kind": 0, "pos": 5, "old": 1})
	for i, s := range []string{"1,2,3", "1,2,3,4,5", "-1,2,3,4", "1,2,3,-4", "1,,3,4", "a", "1,2,3,4x", "99999999999999999999,1,1,1"} {
		bad(s, P{"kind": 1, "old": i & 1})
	}
	for i, s := range []string{"x", "-1", "1.5", "99999999999999999999"} {
		bad(s, P{"kind": 2, "old": i & 1})
	}
	bad("", P{"kind": 3})
	bad("", P{"kind": 4})
	bad("", P{"kind": 5, "old": 1})
	for i, lo := range []int{256, 260, 511, 512, 65536, 1 << 32} {
		bad("", P{"kind": 6, "lo": lo, "old": i & 1})
	}
}

func jobsC25(g *gen) {
	te := func(n, k, seed, again, fail int) {
		g.add("terminal", "vxhTerm", P{"n": n, "k": k, "seed": seed, "again": again, "fail": fail}).Cost = n * n * 10
	}
	te(1, 1, 0, 0, 0)
	te(2, 4, 1, 1, 0)
	te(3, 9, 2, 0, 0)
	te(4, 12, 3, 0, 0)
	te(5, 10, 4, 1, 0)
	te(7, 8, 5, 0, 0)
	te(2, 4, 6, 0, 1)
	te(21, 6, 7, 0, 0)
	te(25, 4, 8, 1, 0)
	if g.thorough() {
		for i := 0; i < 30; i++ {
			te(1+i%9, 10, i, i%2, 0)
		}
		te(57, 8, 1, 0, 0)
		te(177, 4, 2, 0, 0)
	}
}

func jobsC26(g *gen) {
	n := 0
	w := func(text string, p P) *Job {
		q := P{"ws": 1, "ms": 1, "fmt": n % 3, "zero": n % 2, "more": n / 2 % 2, "pos": n % 6}
		for k, v := range p {
			q[k] = v
		}
		j := g.add("wasm", "vxhWasm", q, "fs", "codec")
		j.S = map[string]string{"text": text}
		j.Cost = 3000
		n++
		return j
	}
	const small = 1<<6 | 1<<9 // width and margin
	w("HELLO", P{"set": small | 1, "ver": 2})
	w("hello", P{"set": small | 1, "ver": 5})
	w("12345", P{"set": small | 2, "mode": 4})
	w("12345", P{"set": small | 2, "mode": 8})
	w("12345", P{"set": small | 2, "mode": 32})
	w("\u6f22\u5b57", P{"set": small | 2, "mode": 16})
	w("HELLO", P{"set": small | 4, "lvs": 3})
	w("HELLO", P{"set": small | 8, "csym": 1}).Cost = 9000
	w("HELLO", P{"set": small | 8 | 1<<8, "csym": 1, "fmt": 1}).Cost = 9000
	w("HELLO", P{"set": small | 16})
	w("HELLO", P{"set": small | 16, "tr": 1})
	w("HELLO", P{"set": small | 32, "csym": 2}).Cost = 9000
	w("HELLO", P{"set": small, "ws": 5, "ms": 2})
	w("HELLO", P{"set": small, "ws": 2, "ms": 5})
	w("HELLO", P{"set": small | 128, "ws": 3})
	w("HELLO", P{"set": small | 128, "circle": 1, "ws": 2})
	for f := 0; f < 3; f++ {
		w("x,y", P{"set": small | 1<<8, "fmt": f})
	}
	w("HELLO7", P{"set": small, "tsym": 1}).Cost = 9000
	w("HELLO", P{"set": 1023, "ver": 1, "mode": 8, "ws": 2, "ms": 2, "lvs": 1, "fmt": 0})
	w("777", P{"set": 1023, "ver": 3, "mode": 4, "lvs": 2, "fmt": 2, "tr": 1, "ws": 2})
	w("a", P{"set": 1023 &^ 16, "ver": 4, "mode": 32, "fmt": 1, "ws": 2})
	// a symbol that does not fit the version, in the way that the library says
	w("a text of more than version one", P{"set": small | 1, "ver": 1, "fails": 1})
	plain := func(k int) {
		j := g.add("wasm", "vxhWasmPlain", P{"kind": k})
		j.Stubs, j.S, j.Cost = []string{"fs", "codec"}, map[string]string{"text": "HELLO"}, 20000
	}
	plain(0)
	plain(1)
	plain(4)
	bad := func(key string, k, pos int) {
		j := g.add("wasm", "vxhWasmBad", P{"kind": k, "pos": pos}, "fs", "codec")
		j.S, j.Cost = map[string]string{"key": key}, 1500
	}
	bad("", 0, 0)
	bad("", 1, 0)
	for _, pos := range []int{0, 2, 4} {
		bad("", 2, pos)
	}
	for i := 0; i < 6; i++ {
		bad([]string{"outputBgColor", "outputQrColor"}[i%2], 3, i)
	}
	bad("outputBgColor", 4, 0)
	bad("outputQrColor", 4, 0)
	for _, pos := range []int{-4, 256, 511, 700, 65536} {
		bad("", 5, pos)
	}
	for f := 0; f < 10; f++ {
		g.add("wasm", "vxhWasmType", P{"field": f}, "fs", "codec").Cost = 6000
		for i := 1; f == 6 && i < 5; i++ {
			g.add("wasm", "vxhWasmType", P{"field": f, "i": i}, "fs", "codec").Cost = 6000
		}
	}
	if g.thorough() {
		plain(2)
		plain(3)
		plain(5)
		for i := 0; i < 60; i++ {
			w([]string{"HELLO", "42", "x,y", "A-B", "7"}[i%5], P{"set": small | rot(i, 3)%1024, "ver": 1 + i%6, "mode": []int{32, 4, 32, 8, 4}[i%5], "lvs": i % 4, "csym": i / 7 % 3 % 3,
				"tr": i / 3 % 2, "circle": i / 4 % 2, "ws": 1 + i%2, "ms": 1 + i/2%2, "fails": 1}).Cost = 9000
		}
	}
}
