package main

import (
	"os"
	"strings"

	"flag"
	termbox "github.com/nsf/termbox-go"

	"github.com/urfave/cli/v2"
	"github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
)

type vxGridW struct{ m qrcode.Matrix }

func (w *vxGridW) Write(m qrcode.Matrix) error { w.m = m; return nil }
func (w *vxGridW) Close() error                { return nil }

// vxMain runs the command; it may end by a panic.
func vxMain(args []string) (crashed bool) {
	old := os.Args
	defer func() {
		os.Args = old
		if recover() != nil {
			crashed = true
		}
	}()
	os.Args = append([]string{"qrcode"}, args...)
	main()
	return false
}

func vxItoa(v int) string { return vxName("", v) }

// vxhCli: the command writes the image that the library makes of the text with the
// options that the flags name, in the format of the file's suffix.
func vxhCli() { vxCli(vxSplit(vxInt("off", 0, vxParam("offs")))) }

func vxCli(off int) {
	text := vxParamS("text")
	if vxParam("tsym") != 0 {
		b := []byte(text)
		b[len(b)/2] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:"[vxU8R("t", 0, 44)]
		text = string(b)
	}
	flag := func(long, short, v string) []string {
		switch (vxParam("form") + len(long)) % 4 {
		case 0:
			return []string{"--" + long + "=" + v}
		case 1:
			return []string{"-" + short, v}
		case 2:
			return []string{"--" + long, v}
		}
		return []string{"-" + short + "=" + v}
	}
	var args []string
	var opts []standard.ImageOption
	// block size
	block := 5
	if bl := vxParam("block"); bl != 0 {
		block = bl
		if vxParam("bsym") == 4 {
			block = bl + off
		}
		args = append(args, flag("block", "s", vxItoa(block))...)
	}
	opts = append(opts, standard.WithQRWidth(uint8(block)))
	// borders
	var bd [4]int
	if vxParam("borders") != 0 {
		var s []string
		for i := range bd {
			bd[i] = vxParam("borders") * (i + 2) % 13
			if vxParam("bsym") == i {
				bd[i] += off
			}
			s = append(s, vxItoa(bd[i]))
		}
		args = append(args, flag("borders", "b", strings.Join(s, ","))...)
	}
	opts = append(opts, standard.WithBorderWidth(bd[0], bd[1], bd[2], bd[3]))
	// format
	name := []string{"x.png", "x.jpg", "x.jpeg", "x", "qrcode.jpg", "a.png.jpg", "b.jpg.png"}[vxParam("fmt")]
	if vxParam("fmt") != 4 {
		args = append(args, flag("output", "o", name)...)
	}
	if vxParam("fmt") == 0 || vxParam("fmt") == 6 {
		opts = append(opts, standard.WithBuiltinImageEncoder(standard.PNG_FORMAT))
	} else {
		opts = append(opts, standard.WithBuiltinImageEncoder(standard.JPEG_FORMAT))
	}
	if vxParam("circle") != 0 {
		args = append(args, "--circle")
		opts = append(opts, standard.WithCircleShape())
	}
	if vxParam("tr") != 0 {
		args = append(args, "--transparent")
		opts = append(opts, standard.WithBgTransparent())
	}
	if vxParam("tr") == 2 {
		args[len(args)-1] = "--transparent=false"
		opts = opts[:len(opts)-1]
	}
	if vxParam("old") != 0 {
		vxPut(name, make([]byte, 30000))
	}
	term := vxParam("term") != 0
	termbox.VXReset()
	termbox.VXEvents = []termbox.Event{{Type: termbox.EventKey}}
	if term {
		args = append(args, "--terminal")
	}
	args = append(args, text)
	if vxParam("more") != 0 {
		args = append(args, "ignored")
	}
	vxAssert(!vxMain(args), "the command crashed")
	q, err := qrcode.New(text)
	vxAssert(err == nil, "the text was refused")
	data, ok := vxGet(name)
	if term {
		vxAssert(!ok, "an image was written although the terminal was asked for")
		g := &vxGridW{}
		_ = q.Save(g)
		vxAssert(termbox.VXShown != nil && termbox.VXCloses == 1, "the symbol was not shown, or the terminal not closed")
		bad := false
		for y := 0; y < g.m.Height(); y++ {
			for x, v := range g.m.Row(y) {
				c := termbox.VXShown[[2]int{2*x + 2, y + 1}]
				col := c.Bg
				if c.Ch == '█' {
					col = c.Fg
				}
				if (col == termbox.ColorBlack) != v.IsSet() {
					bad = true
				}
			}
		}
		vxAssert(!bad, "a module has the wrong colour")
		vxReach("done")
		return
	}
	vxAssert(ok, "no image was written")
	vxAssert(termbox.VXInits == 0, "the terminal was used")
	sink := &vxSink{}
	vxAssert(q.Save(standard.NewWithWriter(sink, opts...)) == nil, "the library refused the options")
	vxAssert(len(sink.data) == len(data), "not the image that the flags ask for")
	same := true
	for i := range data {
		if data[i] != sink.data[i] {
			same = false
		}
	}
	vxAssert(same, "not the image that the flags ask for")
	vxReach("done")
}

// vxhCliBad: no image is written when the text or a flag cannot be used.
func vxhCliBad() {
	if lo := vxParam("lo"); lo != 0 {
		vxCliBad(vxSplit(vxInt("v", lo, lo+3)))
		return
	}
	vxCliBad(0)
}

func vxCliBad(big int) {
	termbox.VXReset()
	args := []string{"--output", "x.png"}
	text := "HELLO"
	switch vxParam("kind") {
	case 0: // borders with one odd character
		b := []byte(vxParamS("borders"))
		c := vxU8R("c", 32, 126)
		b[vxParam("pos")] = c
		dig := c >= '0' && c <= '9'
		if (vxParam("comma") != 0) == (c == ',') {
			vxAssume(!dig)
		}
		if vxParam("comma") != 0 {
			vxAssume(c != ',')
		}
		args = append(args, "--borders", string(b))
	case 1: // given borders
		args = append(args, "--borders", vxParamS("borders"))
	case 2:
		args = append(args, "--block", vxParamS("borders"))
	case 6: // a block size of 256 and up
		args = append(args, "--block", vxItoa(big))
	case 3:
		text = strings.Repeat("a", 2954+vxSplit(vxInt("more", 0, 2)))
	case 4:
		args = []string{"--output", "nodir/x.png"}
	case 5:
		args = append(args, "--nosuchflag")
	}
	if vxParam("old") != 0 {
		vxPut("x.png", []byte("old"))
	}
	_ = vxMain(append(args, text))
	data, ok := vxGet("x.png")
	vxAssert(ok == (vxParam("old") != 0) && (!ok || string(data) == "old"), "a file was written in spite of the error")
	_, ok = vxGet("qrcode.jpg")
	vxAssert(!ok, "another file was written")
	_, ok = vxGet("nodir/x.png")
	vxAssert(!ok, "another file was written")
	vxReach("done")
}

// models of the help texts
func vxFlagUsage(f *flag.FlagSet)        {}
func vxShowAppHelp(c *cli.Context) error { return nil }
