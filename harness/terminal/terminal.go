package terminal

import (
	"errors"

	termbox "github.com/nsf/termbox-go"
)

// vxDarkCell: 1 black, 0 white, -1 neither; the colour one sees.
func vxDarkCell(c termbox.Cell, ok bool) int {
	if !ok {
		return -1
	}
	a := c.Bg
	if c.Ch == '█' {
		a = c.Fg
	} else if c.Ch != ' ' {
		return -1
	}
	switch a & 0x1ff {
	case termbox.ColorBlack:
		return 1
	case termbox.ColorWhite:
		return 0
	}
	return -1
}

// vxhTerm: what is on the screen when the key is pressed.
func vxhTerm() {
	n := vxParam("n")
	termbox.VXReset()
	sym := vxParam("k")
	m, dark, _ := vxMatF(n, func(x, y int) int {
		if h := (x*31 + y*17 + vxParam("seed")*7) % 101; h%3 == 0 && sym > 0 || n*n-(y*n+x) <= sym {
			sym--
			return 2
		} else {
			return h % 2
		}
	})
	// events before the key
	ev := []termbox.Event{{Type: termbox.EventResize}, {Type: termbox.EventMouse}, {Type: termbox.EventNone}}
	j := vxSplit(vxInt("events", 0, 3))
	for i := 0; i < j; i++ {
		termbox.VXEvents = append(termbox.VXEvents, ev[(i+vxParam("seed"))%3])
	}
	termbox.VXEvents = append(termbox.VXEvents, termbox.Event{Type: termbox.EventKey, Ch: 'q'}, ev[0], termbox.Event{Type: termbox.EventKey})
	w := New()
	vxAssert(termbox.VXInits == 1, "the terminal was not initialised once")
	if vxParam("fail") != 0 {
		termbox.VXFlushErr = errors.New("vx flush")
		vxAssert(w.Write(m) != nil, "a terminal that fails is not reported")
		vxAssert(w.Close() == nil && termbox.VXCloses == 1, "the terminal was not closed")
		vxReach("done")
		return
	}
	times := 1 + vxParam("again")
	for t := 0; t < times; t++ {
		if t > 0 {
			termbox.VXEvents = append(termbox.VXEvents[:0], termbox.Event{Type: termbox.EventKey})
		}
		vxAssert(w.Write(m) == nil, "writing failed")
		if t == 0 {
			vxAssert(len(termbox.VXEvents) == 2, "writing did not end with the first key")
		}
		vxAssert(termbox.VXShown != nil, "nothing was shown before waiting for the key")
		wrong, border, half := false, false, false
		for y := -1; y <= n; y++ {
			for x := -1; x <= n; x++ {
				c0, ok0 := termbox.VXShown[[2]int{2*x + 2, y + 1}]
				c1, ok1 := termbox.VXShown[[2]int{2*x + 3, y + 1}]
				d, e := vxDarkCell(c0, ok0), vxDarkCell(c1, ok1)
				if d != e {
					half = true
				}
				if x < 0 || y < 0 || x >= n || y >= n {
					if d != 0 {
						border = true
					}
					continue
				}
				want := 0
				if dark[y][x] {
					want = 1
				}
				if d != want {
					wrong = true
				}
			}
		}
		vxAssert(!half, "the two cells of a module differ")
		vxAssert(!wrong, "a module has the wrong colour")
		vxAssert(!border, "the symbol has no light border")
	}
	vxAssert(termbox.VXCloses == 0, "writing closed the terminal")
	vxAssert(w.Close() == nil && termbox.VXCloses == 1, "the terminal was not closed")
	vxReach("done")
}
