package imgkit

import (
	"image"
	"image/color"
)

func vxImage() (image.Image, int, int, int, int) {
	w, h, ox, oy := vxParam("w"), vxParam("h"), vxParam("ox"), vxParam("oy")
	r := image.Rect(ox, oy, ox+w, oy+h)
	if vxParam("kind") == 0 {
		g := image.NewGray(r)
		for y := 0; y < h; y++ {
			for x := 0; x < w; x++ {
				g.SetGray(ox+x, oy+y, color.Gray{vxU8(vxName("p", y*w+x))})
			}
		}
		return g, w, h, ox, oy
	}
	g := image.NewRGBA(r)
	k := vxParam("sym")
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			c := color.RGBA{byte(40 * x), byte(70*y + 3), byte(9*x + 31*y), 255}
			if i := y*w + x; i == k {
				c = color.RGBA{vxU8("r"), vxU8("g"), 99, 255}
			}
			g.SetRGBA(ox+x, oy+y, c)
		}
	}
	return g, w, h, ox, oy
}

// vxLum is the luminance of ITU-R BT.601 that Go's gray model uses.
func vxLum(c color.Color) byte {
	r, g, b, _ := c.RGBA()
	return byte((19595*r + 38470*g + 7471*b + 1<<15) >> 24)
}

// vxhGray: every pixel of the result is the luminance of the same pixel of the source.
func vxhGray() {
	src, w, h, ox, oy := vxImage()
	out := Gray(src)
	vxAssert(out.Bounds() == src.Bounds(), "the image has other bounds")
	bad := false
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if out.GrayAt(ox+x, oy+y).Y != vxLum(src.At(ox+x, oy+y)) {
				bad = true
			}
		}
	}
	vxAssert(!bad, "a pixel has the wrong grey")
	vxReach("done")
}

// vxhBinary: a pixel is white if its luminance is above the threshold, else black; the
// source is not changed.
func vxhBinary() {
	src, w, h, ox, oy := vxImage()
	t := vxU8("t")
	before := make([]byte, w*h)
	for i := range before {
		before[i] = vxLum(src.At(ox+i%w, oy+i/w))
	}
	out := Binaryzation(src, t)
	vxAssert(out.Bounds() == src.Bounds(), "the image has other bounds")
	bad, ch := false, false
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			l := vxLum(src.At(ox+x, oy+y))
			if l != before[y*w+x] {
				ch = true
			}
			want := byte(0)
			if l > t {
				want = 255
			}
			r, g, b, a := out.At(ox+x, oy+y).RGBA()
			if byte(r>>8) != want || byte(g>>8) != want || byte(b>>8) != want || a != 0xffff {
				bad = true
			}
		}
	}
	vxAssert(!ch, "the source was changed")
	vxAssert(!bad, "a pixel is on the wrong side of the threshold")
	vxReach("done")
}

// vxhScaleSame: scaling to the same size keeps every pixel.
func vxhScaleSame() {
	src, w, h, ox, oy := vxImage()
	tx, ty := vxParam("tx"), vxParam("ty")
	out := Scale(src, image.Rect(tx, ty, tx+w, ty+h), nil)
	vxAssert(out.Bounds() == image.Rect(tx, ty, tx+w, ty+h), "the image has other bounds")
	bad := false
	for y := 0; y < h; y++ {
		for x := 0; x < w; x++ {
			if !vxSamePix(out.At(tx+x, ty+y), src.At(ox+x, oy+y)) {
				bad = true
			}
		}
	}
	vxAssert(!bad, "a pixel changed")
	vxReach("done")
}
