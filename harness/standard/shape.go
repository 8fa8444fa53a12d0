package standard

import (
	"image/color"
)

type vxDrawn struct {
	x, y   float64
	w, h   int
	col    color.Color
	nb     uint16
	finder bool
}

type vxShape struct {
	log []vxDrawn
}

func (s *vxShape) add(c *DrawContext, finder bool) {
	x, y := c.UpperLeft()
	w, h := c.Edge()
	s.log = append(s.log, vxDrawn{x, y, w, h, c.Color(), c.Neighbours(), finder})
}
func (s *vxShape) Draw(c *DrawContext)       { s.add(c, false) }
func (s *vxShape) DrawFinder(c *DrawContext) { s.add(c, true) }

// vxhShape: a custom shape is asked to draw every module once, with its place, size,
// colour and neighbours.
func vxhShape() {
	n, bw := vxParam("n"), vxParam("bw")
	m, dark, fin := vxMat(n)
	sh := &vxShape{}
	enc := &vxEnc{}
	top, right, bottom, left := vxParam("b0"), vxParam("b1"), vxParam("b2"), vxParam("b3")
	fg, bg := color.RGBA{10, 20, 30, 255}, color.RGBA{200, 210, 220, 255}
	w := NewWithWriter(&vxSink{}, WithCustomImageEncoder(enc), WithCustomShape(sh), WithQRWidth(uint8(bw)),
		WithBorderWidth(top, right, bottom, left), WithFgColor(fg), WithBgColor(bg))
	vxAssert(w.Write(m) == nil, "writing failed")
	vxAssert(len(sh.log) == n*n, "not every module was drawn exactly once")
	seen := make([]bool, n*n)
	bad := false
	for _, d := range sh.log {
		mx, my := (int(d.x)-left)/bw, (int(d.y)-top)/bw
		vxAssert(mx >= 0 && my >= 0 && mx < n && my < n && d.x == float64(mx*bw+left) && d.y == float64(my*bw+top), "a module was drawn in the wrong place")
		vxAssert(!seen[my*n+mx], "a module was drawn twice")
		seen[my*n+mx] = true
		vxAssert(d.w == bw && d.h == bw, "a module has the wrong size")
		vxAssert(d.finder == fin[my][mx], "a finder module was not drawn as such")
		want := bg
		if dark[my][mx] {
			want = fg
		}
		if !vxSamePix(d.col, want) {
			bad = true
		}
		if d.nb != vxNeighbours(dark, mx, my) {
			bad = true
		}
	}
	vxAssert(!bad, "a module was drawn with the wrong colour or neighbours")
	vxReach("done")
}

func vxNeighbours(dark [][]bool, mx, my int) uint16 {
	flags := [9]uint16{NTopLeft, NTop, NTopRight, NLeft, NSelf, NRight, NBotLeft, NBot, NBotRight}
	n := len(dark)
	nb := uint16(0)
	for k := 0; k < 9; k++ {
		x, y := mx+k%3-1, my+k/3-1
		if x >= 0 && y >= 0 && x < n && y < n && dark[y][x] {
			nb |= flags[k]
		}
	}
	return nb
}

// vxhColor: colours given in any colour model or as hex reach the shapes as they are.
func vxhColor() {
	m, dark, _ := vxMat(1)
	sh := &vxShape{}
	var c color.Color
	var opt ImageOption
	var want color.RGBA
	fgOpt := vxParam("fg") != 0
	switch vxParam("kind") {
	case 0:
		c = color.RGBA{vxU8("r"), vxU8("g"), vxU8("b"), 255}
	case 1:
		c = color.NRGBA{vxU8("r"), vxU8("g"), vxU8("b"), 255}
	case 2:
		c = color.Gray{vxU8("y")}
	case 3:
		c = color.Gray16{uint16(vxU8("h"))<<8 | uint16(vxU8("l"))}
	case 4:
		c = color.RGBA64{uint16(vxU8("r"))<<8 | uint16(vxU8("l")), uint16(vxU8("g"))<<8 | uint16(vxU8("l")), uint16(vxU8("b"))<<8 | uint16(vxU8("l")), 0xffff}
	case 5:
		c = color.YCbCr{vxU8("y"), 128, 128}
	case 6: // translucent, premultiplied
		c = color.Alpha{vxU8("a")}
	case 7:
		c = color.Alpha16{uint16(vxU8("h"))<<8 | uint16(vxU8("l"))}
	case 8:
		c = color.CMYK{vxU8("c"), 0, 255, 0}
	case 9:
		c = color.NRGBA{vxU8("r"), 77, 200, 128}
	}
	if c != nil {
		opt = WithBgColor(c)
		if fgOpt {
			opt = WithFgColor(c)
		}
		r, g, b, a := c.RGBA()
		want = color.RGBA{uint8(r >> 8), uint8(g >> 8), uint8(b >> 8), uint8(a >> 8)}
	} else {
		// hex
		dig := func(i int) (byte, byte) {
			d := byte(i*7+3) % 22
			if p := vxParam("pos"); i == p {
				d = vxU8R(vxName("d", i), 0, 21)
			}
			return "0123456789abcdefABCDEF"[d], [22]byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 10, 11, 12, 13, 14, 15}[d]
		}
		s := []byte{'#'}
		var v [6]byte
		k := 6
		if vxParam("kind") == 11 {
			k = 3
		}
		for i := 0; i < k; i++ {
			var ch byte
			ch, v[i] = dig(i)
			s = append(s, ch)
		}
		want = color.RGBA{v[0]<<4 | v[1], v[2]<<4 | v[3], v[4]<<4 | v[5], 255}
		if k == 3 {
			want = color.RGBA{v[0] * 17, v[1] * 17, v[2] * 17, 255}
		}
		opt = WithBgColorRGBHex(string(s))
		if fgOpt {
			opt = WithFgColorRGBHex(string(s))
		}
	}
	w := NewWithWriter(&vxSink{}, WithCustomImageEncoder(&vxEnc{}), WithCustomShape(sh), WithQRWidth(1), WithBorderWidth(0), opt, WithBgColor(nil), WithFgColor(nil), WithBgColorRGBHex(""), WithFgColorRGBHex(""))
	vxAssert(w.Write(m) == nil, "writing failed")
	vxAssert(len(sh.log) == 1, "not every module was drawn exactly once")
	if dark[0][0] != fgOpt {
		want = color.RGBA{0, 0, 0, 255}
		if fgOpt {
			want = color.RGBA{255, 255, 255, 255}
		}
	}
	vxAssert(vxSamePix(sh.log[0].col, want), "a module has not the colour that was asked for")
	vxReach("done")
}

// vxhCircle: circles stay within their dark module and fill its middle.
func vxhCircle() {
	n, bw := vxParam("n"), vxParam("bw")
	m, dark, _ := vxMat(n)
	enc := &vxEnc{}
	top, left := vxParam("b0"), vxParam("b1")
	w := NewWithWriter(&vxSink{}, WithCustomImageEncoder(enc), WithCircleShape(), WithQRWidth(uint8(bw)), WithBorderWidth(top, left))
	vxAssert(w.Write(m) == nil, "writing failed")
	bd := enc.img.Bounds()
	vxAssert(bd.Dx() == n*bw+2*left && bd.Dy() == n*bw+2*top, "wrong image size")
	fg, bg := color.RGBA{0, 0, 0, 255}, color.RGBA{255, 255, 255, 255}
	bad, mid := false, false
	for y := 0; y < bd.Dy(); y++ {
		for x := 0; x < bd.Dx(); x++ {
			c := enc.img.At(bd.Min.X+x, bd.Min.Y+y)
			mx, my := x-left, y-top
			if mx < 0 || my < 0 || mx >= n*bw || my >= n*bw || !dark[my/bw][mx/bw] {
				if !vxSamePix(c, bg) {
					bad = true
				}
				continue
			}
			// the four quarters around the middle, in units of half a pixel
			dx, dy := 2*(mx%bw)+1-bw, 2*(my%bw)+1-bw
			d2 := dx*dx + dy*dy
			r := bw / 2 * 2 // the radius, rounded down, in half pixels
			if r >= 4 && d2 <= (r-2)*(r-2)*9/10 {
				if !vxSamePix(c, fg) {
					mid = true
				}
			}
			if d2 >= (r+3)*(r+3) {
				if !vxSamePix(c, bg) {
					bad = true
				}
			}
		}
	}
	vxAssert(!bad, "ink outside the circle of a dark module")
	vxAssert(!mid, "the circle of a dark module is not filled")
	vxReach("done")
}
