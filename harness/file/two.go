package file

import (
	"os"
	"sync"

	"github.com/yeqown/go-qrcode/v2"
)

// vxhTwo: two symbols written at the same time give the texts they give alone.
func vxhTwo() {
	n := vxParam("n")
	ma, _, _ := vxMatF(n, func(x, y int) int {
		if y*n+x < 3 {
			return 2
		}
		return (x + y) & 1
	})
	mb := qrcode.VXMatrix(n+vxParam("d"), func(x, y int) qrcode.QRValue {
		return []qrcode.QRValue{qrcode.QRValue_DATA_V0, qrcode.QRValue_DATA_V1, qrcode.QRValue_FINDER_V1}[(x*y+x)%3]
	})
	save := func(m qrcode.Matrix, name string) []byte {
		f, err := os.Create(name)
		if err != nil {
			return nil
		}
		w := New(f)
		if w.Write(m) != nil || w.Close() != nil || f.Close() != nil {
			return nil
		}
		data, _ := vxGet(name)
		return data
	}
	var a, b []byte
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		a = save(ma, "a.txt")
	}()
	go func() {
		defer wg.Done()
		b = save(mb, "b.txt")
	}()
	wg.Wait()
	vxAssert(a != nil && b != nil, "saving at the same time failed")
	vxSameBytes(a, save(ma, "c.txt"), "a text written at the same time as another differs")
	vxSameBytes(b, save(mb, "d.txt"), "a text written at the same time as another differs")
	vxReach("done")
}
