package standard

import (
	"errors"
	"image"
	"image/color"
	"io"
	"math"
	"os"
	"strings"
)

// vxhEncoder: the image is encoded in the format asked for, as JPEG without one; errors
// of the encoder and of the stream are reported; closing closes the stream.
func vxhEncoder() {
	n, bw := vxParam("n"), vxParam("bw")
	m, dark, _ := vxMat(n)
	opts := []ImageOption{WithQRWidth(uint8(bw)), WithBorderWidth(1)}
	png := false
	switch vxParam("fmt") {
	case 1:
		opts = append(opts, WithBuiltinImageEncoder(JPEG_FORMAT))
	case 2:
		opts = append(opts, WithBuiltinImageEncoder(PNG_FORMAT))
		png = true
	case 3:
		opts = append(opts, WithBuiltinImageEncoder(PNG_FORMAT), WithBuiltinImageEncoder(JPEG_FORMAT))
	case 4:
		opts = append(opts, WithBuiltinImageEncoder(JPEG_FORMAT), WithBuiltinImageEncoder(PNG_FORMAT), WithCustomImageEncoder(nil))
		png = true
	case 5:
		opts = append(opts, WithCustomImageEncoder(&vxEnc{}), WithBuiltinImageEncoder(PNG_FORMAT))
		png = true
	}
	var data []byte
	if vxParam("file") == 0 {
		sink := &vxSink{}
		w := NewWithWriter(sink, opts...)
		vxAssert(w.Write(m) == nil, "writing failed")
		vxAssert(sink.closed == 0, "writing closed the stream")
		vxAssert(w.Close() == nil && sink.closed == 1, "the stream was not closed once")
		data = sink.data
	} else {
		name := "x.jpeg" // the suffix does not matter
		vxPut(name, []byte(strings.Repeat("o", 5000+vxInt("more", 1, 3))))
		w, err := New(name, opts...)
		vxAssert(err == nil, "a file could not be created")
		vxAssert(w.Write(m) == nil && w.Close() == nil, "writing a file failed")
		vxAssert(w.Close() == nil, "closing again is an error")
		var ok bool
		data, ok = vxGet(name)
		vxAssert(ok && len(data) < 5000, "older contents of the file are left")
		_, err = New("nodir/y/x.jpeg", opts...)
		vxAssert(err != nil, "a file that cannot be created is not reported")
	}
	if png {
		img := vxDecodePng(data)
		vxAssert(img != nil, "not encoded as PNG")
		W := n*bw + 2
		vxAssert(img.Bounds().Dx() == W && img.Bounds().Dy() == W, "wrong image size")
		bad := false
		for y := 0; y < W; y++ {
			for x := 0; x < W; x++ {
				var want color.Color = color.White
				if x >= 1 && y >= 1 && x <= n*bw && y <= n*bw && dark[(y-1)/bw][(x-1)/bw] {
					want = color.Black
				}
				if !vxSamePix(img.At(x, y), want) {
					bad = true
				}
			}
		}
		vxAssert(!bad, "a pixel has the wrong colour")
	} else {
		vxAssert(len(data) > 3 && string(data[:3]) == vxJpegSig, "not encoded as JPEG")
	}
	vxReach("done")
}

type vxErr struct{}

func (*vxErr) Error() string { return "vx" }

// vxhFail: failures of the encoder, the stream and of closing it.
func vxhFail() {
	m, _, _ := vxMat(2)
	werr, cerr := errors.New("vx write"), errors.New("vx close")
	small := []ImageOption{WithQRWidth(1), WithBorderWidth(0)}
	// the encoder fails
	fails := vxInt("fails", 0, 5)
	enc := &vxEnc{}
	switch fails {
	case 1:
		enc.err = werr
	case 2:
		enc.err = &os.PathError{Op: "write", Path: "vx write", Err: os.ErrClosed}
	case 3:
		enc.err = io.EOF
	case 4:
		enc.err = io.ErrShortWrite
	case 5:
		enc.err = os.ErrClosed
	}
	sink := &vxSink{}
	w := NewWithWriter(sink, append(small, WithCustomImageEncoder(enc))...)
	err := w.Write(m)
	vxAssert((err != nil) == (fails != 0), "an error of the encoder is not reported, or one made up")
	vxAssert(err == nil || fails > 2 || strings.Contains(err.Error(), "vx write"), "the reason of the failure is lost")
	// the stream fails
	for _, f := range []ImageOption{WithBuiltinImageEncoder(PNG_FORMAT), WithBuiltinImageEncoder(JPEG_FORMAT)} {
		w = NewWithWriter(&vxSink{werr: werr}, append(small, f)...)
		vxAssert(w.Write(m) != nil, "an error of the stream is not reported")
	}
	// closing
	k := vxInt("close", 0, 7)
	sink = &vxSink{}
	switch k {
	case 1:
		sink.cerr = cerr
	case 2:
		sink.cerr = os.ErrClosed
	case 3:
		sink.cerr = &os.PathError{Op: "close", Path: "x", Err: os.ErrClosed}
	case 4:
		sink.cerr = &os.PathError{Op: "close", Path: "x", Err: os.ErrInvalid}
	case 5:
		sink.cerr = io.EOF
	case 6:
		sink.cerr = &vxErr{}
	case 7:
		sink.cerr = &os.SyscallError{Syscall: "close", Err: os.ErrPermission}
	}
	w = NewWithWriter(sink, small...)
	err = w.Close()
	vxAssert(sink.closed == 1, "the stream was not closed once")
	vxAssert((err == nil) == (k == 0 || k == 2 || k == 3), "the result of closing the stream is not reported")
	vxReach("done")
}

// vxhHalftone: the middle third of a data module keeps its colour, the eight around it
// show the image; other modules are drawn as ever.
func vxhHalftone() {
	n, bw, b := vxParam("n"), vxParam("bw"), vxParam("b")
	m, dark, _ := vxMat(n)
	fin := vxDataModules(n)
	ox := vxParam("ox")
	g := image.NewGray(image.Rect(ox, ox, ox+3*n, ox+3*n))
	for i := 0; i < 9*n*n; i++ {
		v := byte(i * 37)
		if (i+vxParam("pos"))%5 == 0 {
			v = vxU8(vxName("g", i))
		}
		g.SetGray(ox+i%(3*n), ox+i/(3*n), color.Gray{v})
	}
	enc := &vxEnc{}
	fg, bg := color.RGBA{10, 20, 130, 255}, color.RGBA{250, 251, 252, 255}
	opts := []ImageOption{WithCustomImageEncoder(enc), WithQRWidth(uint8(bw)), WithBorderWidth(b), WithFgColor(fg), WithHalftoneImage(g)}
	if vxParam("tr") != 0 {
		opts = append(opts, WithBgTransparent())
		bg = color.RGBA{}
	} else {
		opts = append(opts, WithBgColor(bg))
	}
	w := NewWithWriter(&vxSink{}, opts...)
	vxAssert(w.Write(m) == nil, "writing failed")
	W := n*bw + 2*b
	bd := enc.img.Bounds()
	vxAssert(bd.Dx() == W && bd.Dy() == W, "wrong image size")
	bad, mid, tone := false, false, false
	for y := 0; y < W; y++ {
		for x := 0; x < W; x++ {
			c := enc.img.At(bd.Min.X+x, bd.Min.Y+y)
			want, what := bg, &bad
			mx, my := x-b, y-b
			if mx >= 0 && my >= 0 && mx < n*bw && my < n*bw {
				sx, sy := mx%bw/(bw/3), my%bw/(bw/3)
				mx, my = mx/bw, my/bw
				if dark[my][mx] {
					want = fg
				}
				if fin[my][mx] {
					what = &mid
					if sx != 1 || sy != 1 {
						what = &tone
						want = color.RGBA{0, 0, 0, 255}
						if g.GrayAt(ox+mx*3+sx, ox+my*3+sy).Y > 60 {
							want = color.RGBA{255, 255, 255, 255}
							if vxParam("tr") != 0 {
								want = color.RGBA{}
							}
						}
					}
				}
			}
			if vxParam("tr") != 0 && want.A == 0 {
				if what == &tone {
					continue // drawing nothing leaves what is below
				}
				if _, _, _, a := c.RGBA(); a != 0 {
					*what = true
				}
				continue
			}
			if !vxSamePix(c, want) {
				*what = true
			}
		}
	}
	vxAssert(!bad, "a pixel outside the data modules has the wrong colour")
	vxAssert(!mid, "the middle of a data module lost the module's colour")
	vxAssert(!tone, "a data module does not show the image around its middle")
	vxAgain(enc, m, func() *Writer { return NewWithWriter(&vxSink{}, opts...) })
	vxReach("done")
}

// vxDataModules tells which modules of vxMat(n) are data (see vxMat).
func vxDataModules(n int) [][]bool {
	out := make([][]bool, n)
	for y := range out {
		out[y] = make([]bool, n)
		for x := range out[y] {
			fin := n >= 21 && (x < 7 || x >= n-7) && (y < 7 || y >= n-7) && !(x >= n-7 && y >= n-7)
			if n < 21 {
				fin = (x*3+y)%4 == 0
			}
			out[y][x] = !fin && !((x+y*5)%3 == 0 && (x*2+y)%6 != 0)
		}
	}
	return out
}

// vxhGradient: dark modules take the colour of the gradient at their place, whatever
// the other modules are; nothing else changes.
func vxhGradient() {
	n, bw, b := vxParam("n"), vxParam("bw"), vxParam("b")
	m, dark, _ := vxMat(n)
	enc := &vxEnc{}
	c0, c1, c2 := color.RGBA{255, 0, 0, 255}, color.RGBA{0, 200, 40, 255}, color.RGBA{30, 10, 255, 255}
	angle := float64(vxParam("angle"))
	var stops []ColorStop
	switch vxParam("stops") {
	case 1:
		stops = []ColorStop{{0.3, c1}}
	case 2:
		stops = []ColorStop{{1, c1}, {0, c0}}
	case 3:
		stops = []ColorStop{{0.9, c2}, {0.1, c0}, {0.4, c1}}
	}
	fg, bg := color.RGBA{1, 2, 3, 255}, color.RGBA{250, 251, 252, 255}
	opts := []ImageOption{WithCustomImageEncoder(enc), WithQRWidth(uint8(bw)), WithBorderWidth(b), WithFgColor(fg), WithBgColor(bg),
		WithFgGradient(NewGradient(angle, stops...)), WithFgGradient(nil)}
	w := NewWithWriter(&vxSink{}, opts...)
	vxAssert(w.Write(m) == nil, "writing failed")
	W := n*bw + 2*b
	bd := enc.img.Bounds()
	vxAssert(bd.Dx() == W && bd.Dy() == W, "wrong image size")
	// the stops in order
	ord := append([]ColorStop(nil), stops...)
	for i := range ord {
		for j := i + 1; j < len(ord); j++ {
			if ord[j].T < ord[i].T {
				ord[i], ord[j] = ord[j], ord[i]
			}
		}
	}
	dx, dy := math.Cos(angle*math.Pi/180), -math.Sin(angle*math.Pi/180)
	f := float64(W)
	lo := math.Min(0, dx*f) + math.Min(0, dy*f)
	hi := math.Max(0, dx*f) + math.Max(0, dy*f)
	at := func(x, y int) color.RGBA {
		t := (float64(x)*dx + float64(y)*dy - lo) / (hi - lo)
		if t <= ord[0].T {
			return ord[0].Color
		}
		for i := 1; i < len(ord); i++ {
			if t <= ord[i].T {
				u := (t - ord[i-1].T) / (ord[i].T - ord[i-1].T)
				p, q := ord[i-1].Color, ord[i].Color
				mix := func(a, b byte) byte { return byte(float64(a) + (float64(b)-float64(a))*u) }
				return color.RGBA{mix(p.R, q.R), mix(p.G, q.G), mix(p.B, q.B), 255}
			}
		}
		return ord[len(ord)-1].Color
	}
	near := func(a uint32, b byte) bool {
		d := int(a>>8) - int(b)
		return d >= -2 && d <= 2
	}
	bad, grad := false, false
	for y := 0; y < W; y++ {
		for x := 0; x < W; x++ {
			c := enc.img.At(bd.Min.X+x, bd.Min.Y+y)
			mx, my := x-b, y-b
			if mx >= 0 && my >= 0 && mx < n*bw && my < n*bw {
				want := at(x, y)
				r, g, bl, a := c.RGBA()
				if dark[my/bw][mx/bw] && !(near(r, want.R) && near(g, want.G) && near(bl, want.B) && a == 0xffff) {
					grad = true
				}
				if dark[my/bw][mx/bw] {
					continue
				}
			}
			if !vxSamePix(c, bg) {
				bad = true
			}
		}
	}
	vxAssert(!bad, "a light pixel or the border changed")
	vxAssert(!grad, "a dark pixel has not the colour of the gradient at its place")
	vxAgain(enc, m, func() *Writer { return NewWithWriter(&vxSink{}, opts...) })
	vxReach("done")
}
