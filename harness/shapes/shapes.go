package shapes

import (
	"image"
	"image/color"
	"io"

	"github.com/yeqown/go-qrcode/writer/standard"
)

type vxEnc struct{ img image.Image }

func (e *vxEnc) Encode(w io.Writer, m image.Image) error {
	e.img = m
	return nil
}

// vxhShapes: ink of a shape is where the shape, the module and its neighbours say.
func vxhShapes() {
	n, bw, b, kind := vxParam("n"), vxParam("bw"), vxParam("b"), vxParam("kind")
	ratio := float64(vxParam("ratio")) / 100
	lo, k := vxParam("fix"), 0
	m, dark, fin := vxMatF(n, func(x, y int) int {
		k++
		if vxParam("sym")>>(k-1)&1 != 0 {
			return 2
		}
		return lo >> (k - 1) & 1
	})
	var block, finder func(*standard.DrawContext)
	finder = SquareFinder()
	if vxParam("finder") != 0 {
		finder = RoundedFinder()
	}
	// half the width of the links, as a share of the module; 0: none
	var r, h, v float64
	switch kind {
	case 0:
		block = SquareBlocks(ratio)
		r = 0
	case 1:
		block = CircleBlocks(ratio)
		r = ratio / 2
	case 2:
		block = HStripeBlock(ratio)
		r, h = ratio/2, ratio/2
	case 3:
		block = VStripeBlock(ratio)
		r, v = ratio/2, ratio/2
	case 4:
		block = ChainBlock()
		r, h, v = 0.45, 0.09, 0.09
	case 5:
		block = HChainBlock()
		r, h = 0.425, 0.085
	case 6:
		block = VChainBlock()
		r, v = 0.425, 0.085
	case 7:
		block = LiquidBlock()
		r, h, v = 0.5, 0.5, 0.5
	}
	// values out of range mean the default
	if kind < 2 && (ratio < 0.1 || ratio > 1) {
		ratio, r = 1, r/ratio
	}
	if (kind == 2 || kind == 3) && (ratio < 0.6 || ratio > 1) {
		r = 0.425
		if kind == 2 {
			h = r
		} else {
			v = r
		}
	}
	enc := &vxEnc{}
	fg, bg := color.RGBA{10, 20, 130, 255}, color.RGBA{250, 251, 252, 255}
	w := standard.NewWithWriter(&vxSink{}, standard.WithCustomImageEncoder(enc), standard.WithQRWidth(uint8(bw)), standard.WithBorderWidth(b),
		standard.WithFgColor(fg), standard.WithBgColor(bg), standard.WithCustomShape(Assemble(finder, block)))
	vxAssert(w.Write(m) == nil, "writing failed")
	W := n*bw + 2*b
	bd := enc.img.Bounds()
	vxAssert(bd.Dx() == W && bd.Dy() == W, "wrong image size")
	at := func(mx, my int) bool { return mx >= 0 && my >= 0 && mx < n && my < n && dark[my][mx] }
	ink, gap, fnd := false, false, false
	fw := float64(bw)
	for y := 0; y < W; y++ {
		for x := 0; x < W; x++ {
			c := enc.img.At(bd.Min.X+x, bd.Min.Y+y)
			mx, my := x-b, y-b
			if mx < 0 || my < 0 || mx >= n*bw || my >= n*bw {
				if !vxSamePix(c, bg) {
					gap = true
				}
				continue
			}
			// the place in the module, from its middle
			dx, dy := float64(mx%bw)+0.5-fw/2, float64(my%bw)+0.5-fw/2
			mx, my = mx/bw, my/bw
			ax, ay := dx, dy
			if ax < 0 {
				ax = -ax
			}
			if ay < 0 {
				ay = -ay
			}
			is, isBg := vxSamePix(c, fg), vxSamePix(c, bg)
			d := dark[my][mx]
			if fin[my][mx] {
				// the middle of the module, or all of it
				if vxParam("finder") == 0 || ax < 1 && ay < 1 {
					if d && !is || !d && !isBg && (kind != 7 || ax < 1 && ay < 1) {
						fnd = true
					}
				}
				continue
			}
			in := func(s float64) bool { // in the shape, all around s larger
				if kind == 0 {
					return ax <= ratio*fw/2+s && ay <= ratio*fw/2+s
				}
				return ax*ax+ay*ay <= (r*fw+s)*(r*fw+s) && r*fw+s > 0
			}
			link := func(s float64) bool {
				return h > 0 && ay <= h*fw+s && (dx <= 0 && at(mx-1, my) || dx >= 0 && at(mx+1, my)) ||
					v > 0 && ax <= v*fw+s && (dy <= 0 && at(mx, my-1) || dy >= 0 && at(mx, my+1))
			}
			if d && (in(-0.8) || link(-0.8)) && !is {
				ink = true
			}
			if kind == 7 || vxParam("finder") != 0 {
				// liquid corners and rounded finders reach over the edges of light modules
				if !d && ax*ax+ay*ay < 0.13*fw*fw && !isBg {
					gap = true
				}
				continue
			}
			if d && !in(0.8) && !link(0.8) && !isBg || !d && !isBg {
				gap = true
			}
		}
	}
	vxAssert(!ink, "a dark module lacks ink where its shape has it")
	vxAssert(!gap, "ink where the shape has none")
	vxAssert(!fnd, "a finder module has the wrong colour")
	vxReach("done")
}
