package compressed

import (
	"sync"

	"github.com/yeqown/go-qrcode/v2"
)

// vxhTwo: two symbols saved at the same time give the images they give alone.
func vxhTwo() {
	n := vxParam("n")
	ma, _, _ := vxMat(n)
	mb := qrcode.VXMatrix(n+vxParam("d"), func(x, y int) qrcode.QRValue {
		return []qrcode.QRValue{qrcode.QRValue_DATA_V0, qrcode.QRValue_DATA_V1, qrcode.QRValue_FINDER_V1}[(x*y+x)%3]
	})
	opt := &Option{Padding: vxParam("pad"), BlockSize: vxParam("bs")}
	file := vxParam("file") != 0
	save := func(m qrcode.Matrix, name string) []byte {
		sink := &vxSink{}
		w := NewWithWriter(sink, opt)
		if file {
			var err error
			if w, err = New(name, opt); err != nil {
				return nil
			}
		}
		if w.Write(m) != nil || w.Close() != nil {
			return nil
		}
		if file {
			data, _ := vxGet(name)
			return data
		}
		return sink.data
	}
	var a, b []byte
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		a = save(ma, "a.png")
	}()
	go func() {
		defer wg.Done()
		b = save(mb, "b.png")
	}()
	wg.Wait()
	vxAssert(a != nil && b != nil, "saving at the same time failed")
	vxSameBytes(a, save(ma, "c.png"), "an image saved at the same time as another differs")
	vxSameBytes(b, save(mb, "d.png"), "an image saved at the same time as another differs")
	vxReach("done")
}
