package standard

import (
	"image"
	"image/color"
	"sync"

	"github.com/yeqown/go-qrcode/v2"
)

// vxhTwo: two symbols saved at the same time, with the same option values, give the
// images they give alone.
func vxhTwo() {
	n, bw := vxParam("n"), vxParam("bw")
	ma, _, _ := vxMatF(n, func(x, y int) int {
		if (x*3+y*5)%4 == 0 {
			return 2
		}
		return (x + y) & 1
	})
	mb := qrcode.VXMatrix(n+vxParam("d"), func(x, y int) qrcode.QRValue {
		return []qrcode.QRValue{qrcode.QRValue_DATA_V0, qrcode.QRValue_DATA_V1, qrcode.QRValue_FINDER_V1}[(x*y+x)%3]
	})
	fg, bg := color.RGBA{1, 2, 3, 255}, color.RGBA{250, 251, 252, 255}
	opts := []ImageOption{WithQRWidth(uint8(bw)), WithBorderWidth(1, 2)}
	if vxParam("jpg") == 0 {
		opts = append(opts, WithBuiltinImageEncoder(PNG_FORMAT))
	}
	switch vxParam("what") {
	case 1:
		opts = append(opts, WithFgColor(fg), WithBgColor(bg), WithCircleShape())
	case 2:
		opts = append(opts, WithBgTransparent(), WithFgColorRGBHex("#102030"))
	case 3:
		opts = append(opts, WithFgGradient(NewGradient(30, ColorStop{1, fg}, ColorStop{0, bg})))
	case 4:
		lg := image.NewRGBA(image.Rect(0, 0, 2, 2))
		lg.SetRGBA(1, 1, fg)
		opts = append(opts, WithLogoImage(lg), WithLogoSizeMultiplier(1), WithLogoSafeZone())
	case 5:
		g := image.NewGray(image.Rect(0, 0, 5, 5))
		g.SetGray(2, 3, color.Gray{200})
		opts = append(opts, WithHalftoneImage(g))
	}
	file := vxParam("file") != 0
	save := func(m qrcode.Matrix, name string) []byte {
		sink := &vxSink{}
		w := NewWithWriter(sink, opts...)
		if file {
			w, _ = New(name, opts...)
			if w == nil {
				return nil
			}
		}
		if w.Write(m) != nil || w.Close() != nil {
			return nil
		}
		if file {
			data, _ := vxGet(name)
			return data
		}
		return sink.data
	}
	var a, b []byte
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		a = save(ma, "a.png")
	}()
	go func() {
		defer wg.Done()
		b = save(mb, "b.png")
	}()
	wg.Wait()
	vxAssert(a != nil && b != nil, "saving at the same time failed")
	vxSameBytes(a, save(ma, "c.png"), "an image saved at the same time as another differs")
	vxSameBytes(b, save(mb, "d.png"), "an image saved at the same time as another differs")
	vxReach("done")
}
