package standard

import (
	"image"
	"image/color"
	imgdraw "image/draw"

	xdraw "golang.org/x/image/draw"
	"golang.org/x/image/math/f64"
)

// vxhLogo: a logo that fits is drawn in the middle, unchanged, over the symbol; one that
// does not fit leaves the symbol alone; the safe zone leaves the modules under it blank.
func vxhLogo() {
	n, bw := vxParam("n"), vxParam("bw")
	lw, lh := vxParam("lw"), vxParam("lh")
	ox, oy := vxParam("ox"), vxParam("oy")
	safe := vxParam("safe") != 0
	top, right, bottom, left := vxParam("b0"), vxParam("b1"), vxParam("b2"), vxParam("b3")
	mult := vxParam("mult")
	W, H := n*bw+left+right, n*bw+top+bottom
	lx, ly := (W-lw)/2, (H-lh)/2
	hit := func(mx, my int) bool {
		x0, y0 := left+mx*bw, top+my*bw
		return x0 < lx+lw && x0+bw > lx && y0 < ly+lh && y0+bw > ly
	}
	// with a safe zone, at most nsym modules in and next to it are symbolic
	syms := 0
	m, dark, fin := vxMatF(n, func(x, y int) int {
		if safe && hit(x, y) {
			if k := x*7 + y*5 + vxParam("pat"); k%3 == 0 && syms < 4 {
				syms++
				return 2
			} else {
				return k / 3 % 2
			}
		}
		return 2
	})
	lg := image.NewRGBA(image.Rect(ox, oy, ox+lw, oy+lh))
	r0, g0 := vxU8("lr"), vxU8("lg")
	for y := 0; y < lh; y++ {
		for x := 0; x < lw; x++ {
			lg.SetRGBA(ox+x, oy+y, color.RGBA{r0 + byte(x), g0 ^ byte(y), byte(x*5 + y*11), 255})
		}
	}
	fg, bg := color.RGBA{1, 2, 3, 255}, color.RGBA{250, 251, 252, 255}
	enc := &vxEnc{}
	sh := &vxShape{}
	opts := []ImageOption{WithCustomImageEncoder(enc), WithQRWidth(uint8(bw)), WithBorderWidth(top, right, bottom, left), WithFgColor(fg), WithBgColor(bg), WithLogoImage(lg), WithLogoImage(nil)}
	if mult != 0 {
		opts = append(opts, WithLogoSizeMultiplier(mult))
	} else {
		mult = 5
	}
	if safe {
		opts = append(opts, WithLogoSafeZone())
	}
	if vxParam("shape") != 0 {
		opts = append(opts, WithCustomShape(sh))
	}
	w := NewWithWriter(&vxSink{}, opts...)
	vxAssert(w.Write(m) == nil, "writing failed")
	bd := enc.img.Bounds()
	vxAssert(bd.Dx() == W && bd.Dy() == H, "wrong image size")
	fits := W >= mult*lw && H >= mult*lh
	under := func(mx, my int) bool { return fits && safe && hit(mx, my) }
	// the symbol as it is to be seen
	seen := make([][]bool, n)
	for y := range seen {
		seen[y] = make([]bool, n)
		for x := range seen[y] {
			seen[y][x] = dark[y][x] && !under(x, y)
		}
	}
	if vxParam("shape") != 0 {
		// what a custom shape is told
		bad, fbad := false, false
		cnt := make([]int, n*n)
		for _, d := range sh.log {
			mx, my := (int(d.x)-left)/bw, (int(d.y)-top)/bw
			vxAssert(mx >= 0 && my >= 0 && mx < n && my < n, "a module was drawn in the wrong place")
			cnt[my*n+mx]++
			if d.finder != fin[my][mx] {
				fbad = true
			}
			if d.nb != vxNeighbours(seen, mx, my) {
				bad = true
			}
			if under(mx, my) && vxSamePix(d.col, fg) {
				fbad = true
			}
		}
		for y := range seen {
			for x := range seen[y] {
				if !under(x, y) {
					vxAssert(cnt[y*n+x] == 1, "not every module outside the safe zone was drawn once")
				}
			}
		}
		vxAssert(!fbad, "a dark module under the safe zone was drawn")
		vxAssert(!bad, "a module was drawn with neighbours that are not those outside the safe zone")
		vxReach("shape")
		return
	}
	bad, badl := false, false
	for y := 0; y < H; y++ {
		for x := 0; x < W; x++ {
			c := enc.img.At(bd.Min.X+x, bd.Min.Y+y)
			if fits && x >= lx && x < lx+lw && y >= ly && y < ly+lh {
				if !vxSamePix(c, lg.RGBAAt(ox+x-lx, oy+y-ly)) {
					badl = true
				}
				continue
			}
			want := bg
			mx, my := x-left, y-top
			if mx >= 0 && my >= 0 && mx < n*bw && my < n*bw && seen[my/bw][mx/bw] {
				want = fg
			}
			if !vxSamePix(c, want) {
				bad = true
			}
		}
	}
	vxAssert(!bad, "a pixel outside the logo has the wrong colour")
	vxAssert(!badl, "the logo is not drawn unchanged in the middle")
	vxAgain(enc, m, func() *Writer { return NewWithWriter(&vxSink{}, opts...) })
	vxReach("done")
}

// vxTransform stands for (*draw.Kernel).Transform in the symbolic run: the library only
// uses translations by whole pixels, which copy.
func vxTransform(k *xdraw.Kernel, dst xdraw.Image, m f64.Aff3, src image.Image, sr image.Rectangle, op xdraw.Op, opts *xdraw.Options) {
	if m[0] != 1 || m[1] != 0 || m[3] != 0 || m[4] != 1 || opts != nil && (opts.SrcMask != nil || opts.DstMask != nil) {
		panic("vx: not a translation")
	}
	tx, ty := int(m[2]), int(m[5])
	if float64(tx) != m[2] || float64(ty) != m[5] {
		panic("vx: not a whole translation")
	}
	imgdraw.Draw(dst, sr.Add(image.Pt(tx, ty)), src, sr.Min, imgdraw.Op(op))
}
