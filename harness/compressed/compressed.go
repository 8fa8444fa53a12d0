package compressed

import (
	"errors"
	"image/color"
	"io"
	"os"
)

// vxhCompressed: the image has the announced size and every pixel the colour of its
// module; errors of the writer are returned; a file holds exactly the image.
func vxhCompressed() {
	n, bs, pad := vxParam("n"), vxParam("bs"), vxParam("pad")
	m, dark, _ := vxMat(n)
	opt := &Option{Padding: pad, BlockSize: bs}
	sink := &vxSink{}
	w := NewWithWriter(sink, opt)
	vxAssert(w.Write(m) == nil, "writing failed")
	vxAssert(sink.closed == 0, "writing closed the stream")
	vxAssert(w.Close() == nil && sink.closed == 1, "the stream was not closed once")
	img := vxDecodePng(sink.data)
	vxAssert(img != nil, "no PNG image was written")
	W := n*bs + 2*pad
	bd := img.Bounds()
	vxAssert(bd.Dx() == W && bd.Dy() == W, "wrong image size")
	bad := false
	for y := 0; y < W; y++ {
		for x := 0; x < W; x++ {
			var want color.Color = color.White
			mx, my := x-pad, y-pad
			if mx >= 0 && my >= 0 && mx < n*bs && my < n*bs && dark[my/bs][mx/bs] {
				want = color.Black
			}
			if !vxSamePix(img.At(bd.Min.X+x, bd.Min.Y+y), want) {
				bad = true
			}
		}
	}
	vxAssert(!bad, "a pixel has the wrong colour")

	werr, cerr := errors.New("vx write"), errors.New("vx close")
	switch vxInt("kind", 0, 5) {
	case 1:
		werr, cerr = io.ErrShortWrite, os.ErrClosed
	case 2:
		werr, cerr = io.EOF, io.EOF
	case 3:
		werr, cerr = &os.PathError{Op: "write", Path: "x", Err: os.ErrClosed}, &os.PathError{Op: "close", Path: "x", Err: os.ErrInvalid}
	case 4:
		werr, cerr = os.ErrInvalid, &os.SyscallError{Syscall: "close", Err: os.ErrPermission}
	case 5:
		werr, cerr = os.ErrClosed, io.ErrClosedPipe
	}
	bad1 := NewWithWriter(&vxSink{werr: werr, cerr: cerr}, opt)
	vxAssert(errors.Is(bad1.Write(m), werr), "the error of the stream was not returned")
	vxAssert(errors.Is(bad1.Close(), cerr), "the error of closing the stream was not returned")

	if vxParam("file") != 0 {
		// over an older file that is longer
		old := make([]byte, len(sink.data)+vxInt("more", 1, 9))
		for i := range old {
			old[i] = vxU8R("old", 'a', 'z')
		}
		vxPut("out.png", old)
		f, err := New("out.png", opt)
		vxAssert(err == nil && f != nil, "a file could not be created")
		vxAssert(f.Write(m) == nil && f.Close() == nil, "writing a file failed")
		got, ok := vxGet("out.png")
		vxAssert(ok && len(got) == len(sink.data), "the file does not hold exactly the image")
		same := true
		for i := range got {
			if got[i] != sink.data[i] {
				same = false
			}
		}
		vxAssert(same, "the file does not hold exactly the image")
		_, err = New("nodir/x/out.png", opt)
		vxAssert(err != nil, "a file that cannot be created is not reported")
	}
	vxReach("done")
}
