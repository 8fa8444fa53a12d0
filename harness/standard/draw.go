package standard

import (
	"image"
	"image/color"
	"io"

	"github.com/yeqown/go-qrcode/v2"
)

// an encoder that keeps what it is given
type vxEnc struct {
	img image.Image
	w   io.Writer
	n   int
	err error
}

func (e *vxEnc) Encode(w io.Writer, img image.Image) error {
	e.img, e.w = img, w
	e.n++
	return e.err
}

// vxhPixels: with the default shape every pixel of the image is that of its module or
// of the border.
func vxhPixels() {
	n, bw := vxParam("n"), vxParam("bw")
	m, dark, _ := vxMat(n)
	enc := &vxEnc{}
	opts := []ImageOption{WithCustomImageEncoder(enc)}
	var b [4]int
	switch nb := vxParam("nb"); nb {
	case 0:
		b = [4]int{40, 40, 40, 40}
	case 1:
		v := vxParam("b0")
		b = [4]int{v, v, v, v}
		opts = append(opts, WithBorderWidth(v))
	case 2:
		v, w := vxParam("b0"), vxParam("b1")
		b = [4]int{v, w, v, w}
		opts = append(opts, WithBorderWidth(v, w))
	case 4:
		b = [4]int{vxParam("b0"), vxParam("b1"), vxParam("b2"), vxParam("b3")}
		opts = append(opts, WithBorderWidth(b[:]...))
	}
	if bw != 0 {
		opts = append(opts, WithQRWidth(uint8(bw)))
	} else {
		bw = 20
	}
	fg, bg := color.RGBA{0, 0, 0, 255}, color.RGBA{255, 255, 255, 255}
	if vxParam("col") != 0 {
		fg = color.RGBA{vxU8("fr"), vxU8("fg"), vxU8("fb"), 255}
		bg = color.RGBA{vxU8("br"), vxU8("bg"), vxU8("bb"), 255}
		opts = append(opts, WithFgColor(fg), WithBgColor(bg))
	}
	if vxParam("tr") != 0 {
		opts = append(opts, WithBgTransparent())
		bg = color.RGBA{}
	}
	sink := &vxSink{}
	w := NewWithWriter(sink, opts...)
	vxAssert(w.Write(m) == nil, "writing failed")
	vxAssert(enc.n == 1 && enc.img != nil && enc.w == io.Writer(sink), "the image was not encoded once into the writer")
	W, H := n*bw+b[1]+b[3], n*bw+b[0]+b[2]
	bd := enc.img.Bounds()
	vxAssert(bd.Dx() == W && bd.Dy() == H, "wrong image size")
	at := w.Attribute(n)
	vxAssert(at.W == W && at.H == H && at.Borders == b && at.BlockWidth == bw, "the attributes announced differ from the image")
	bad := false
	for y := 0; y < H; y++ {
		for x := 0; x < W; x++ {
			want := bg
			mx, my := x-b[3], y-b[0]
			if mx >= 0 && my >= 0 && mx < n*bw && my < n*bw && dark[my/bw][mx/bw] {
				want = fg
			}
			c := enc.img.At(bd.Min.X+x, bd.Min.Y+y)
			if vxParam("tr") != 0 {
				_, _, _, a := c.RGBA()
				if (want.A == 0) != (a == 0) {
					bad = true
				}
				if want.A == 0 {
					continue
				}
			}
			if !vxSamePix(c, want) {
				bad = true
			}
		}
	}
	vxAssert(!bad, "a pixel has the wrong colour")
	vxAgain(enc, m, func() *Writer { return NewWithWriter(sink, opts...) })
	vxReach("done")
}

// vxAgain: a writer that has written another symbol, and one made of the same options,
// give the image that the first one gave (enc.img).
func vxAgain(enc *vxEnc, m qrcode.Matrix, mk func() *Writer) {
	if vxParam("again") == 0 {
		return
	}
	first := enc.img
	n := m.Width()
	other := qrcode.VXMatrix(n+1, func(x, y int) qrcode.QRValue {
		return []qrcode.QRValue{qrcode.QRValue_DATA_V0, qrcode.QRValue_DATA_V1, qrcode.QRValue_FINDER_V1}[(x*y+x)%3]
	})
	w := mk()
	if vxParam("again") == 1 {
		vxAssert(w.Write(other) == nil, "writing failed")
	}
	vxAssert(w.Write(m) == nil, "writing failed")
	if vxParam("again") == 2 {
		vxAssert(w.Write(m) == nil, "writing failed")
	}
	vxAssert(enc.img.Bounds() == first.Bounds(), "writing again gives an image of another size")
	same := true
	b := first.Bounds()
	for y := b.Min.Y; y < b.Max.Y; y++ {
		for x := b.Min.X; x < b.Max.X; x++ {
			r0, g0, b0, a0 := first.At(x, y).RGBA()
			r1, g1, b1, a1 := enc.img.At(x, y).RGBA()
			if r0 != r1 || g0 != g1 || b0 != b1 || a0 != a1 {
				same = false
			}
		}
	}
	vxAssert(same, "writing again gives another image")
}
