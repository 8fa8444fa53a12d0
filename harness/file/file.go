package file

import (
	"os"

	"github.com/yeqown/go-qrcode/v2"
)

// vxhFile: each pair of rows is one line of half blocks; a missing or unwritable file
// is an error.
func vxhFile() {
	n, k, seed := vxParam("n"), vxParam("k"), vxParam("seed")
	// k symbolic modules, the others fixed
	syms := 0
	m, dark, _ := vxMatF(n, func(x, y int) int {
		h := (x*31 + y*17 + seed*7) % 101
		if syms < k && (h%3 == 0 || n*n-(y*n+x) <= k-syms) {
			syms++
			return 2
		}
		return h / 3 % 2
	})
	f, err := os.Create("out.txt")
	vxAssert(err == nil, "vx: cannot create")
	w := New(f)
	vxAssert(w.Write(m) == nil, "writing failed")
	got, _ := vxGet("out.txt")
	s := string(got)
	want := ""
	for y := 0; y < n; y += 2 {
		for x := 0; x < n; x++ {
			up, down := dark[y][x], y+1 < n && dark[y+1][x]
			switch {
			case up && down:
				want += "\u2588"
			case up:
				want += "\u2580"
			case down:
				want += "\u2584"
			default:
				want += " "
			}
		}
		want += "\n"
	}
	vxAssert(s == want, "the text does not show the modules")
	vxAssert(w.Close() == nil, "closing failed")
	// the caller's file stays open
	_, err = f.WriteString("x")
	vxAssert(err == nil, "the file of the caller was closed")
	vxAssert(f.Close() == nil, "the file of the caller was closed")
	vxAssert(New(f).Write(m) != nil, "writing to a closed file is no error")
	vxAssert(New(nil).Write(m) != nil, "writing to no file is no error")
	var qw qrcode.Writer = New(nil)
	vxAssert(qw.Close() == nil, "closing failed")
	r, err := os.Open("out.txt")
	vxAssert(err == nil, "vx: cannot open")
	vxAssert(New(r).Write(m) != nil, "writing to a read-only file is no error")
	vxReach("done")
}
