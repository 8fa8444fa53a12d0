package main

import (
	"encoding/base64"
	"strings"
	"syscall/js"

	"github.com/yeqown/go-qrcode/v2"
	"github.com/yeqown/go-qrcode/writer/standard"
)

// vxCall starts the program, as loading it does, and calls the function it offers.
func vxCall(args ...any) (r js.Value, crashed bool) {
	ready := make(chan bool, 8)
	js.VXReset(func(p string) { ready <- true })
	go main()
	<-ready
	defer func() {
		if recover() != nil {
			crashed = true
		}
	}()
	return js.Global().Get("generateQRCode").Invoke(args...), false
}

// vxLib is what the library makes of the text, in base 64.
func vxLib(text string, eo []qrcode.EncodeOption, io []standard.ImageOption) (s string, ok bool) {
	defer func() {
		if recover() != nil {
			ok = false
		}
	}()
	q, err := qrcode.NewWith(text, eo...)
	if err != nil {
		return "", false
	}
	sink := &vxSink{}
	if q.Save(standard.NewWithWriter(sink, io...)) != nil {
		return "", false
	}
	return base64.StdEncoding.EncodeToString(sink.data), true
}

// vxResult compares a result with what is expected.
func vxResult(r js.Value, img string, ok bool) {
	vxAssert(r.Type() == js.TypeObject, "the result is no object")
	suc, msg, b64 := r.Get("success"), r.Get("error"), r.Get("base64EncodedImage")
	vxAssert(suc.Type() == js.TypeBoolean && msg.Type() == js.TypeString && b64.Type() == js.TypeString, "a field of the result is missing")
	vxAssert(suc.Bool() == ok, "success is not what the library says")
	vxAssert((msg.String() == "") == ok, "the error is not what the library says")
	got := b64.String()
	vxAssert(len(got) == len(img), "not the image that the options ask for")
	same := true
	for i := range img {
		if img[i] != got[i] {
			same = false
		}
	}
	vxAssert(same, "not the image that the options ask for")
}

func vxText() string {
	text := vxParamS("text")
	if vxParam("tsym") != 0 {
		b := []byte(text)
		b[len(b)/2] = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZ $%*+-./:"[vxU8R("t", 0, 44)]
		text = string(b)
	}
	return text
}

// vxhWasm: generateQRCode gives the image that the library makes of the text with the
// options that the fields name; a field that is left out leaves the default.
func vxhWasm() {
	text := vxText()
	o := js.VXObject()
	var eo []qrcode.EncodeOption
	var io []standard.ImageOption
	set := vxParam("set")
	zero := vxParam("zero") != 0 // other fields present with their zero value
	put := func(bit int, key string, v, z any) bool {
		if set>>bit&1 != 0 {
			o.Set(key, v)
			return true
		}
		if zero {
			o.Set(key, z)
		}
		return false
	}
	if v := vxParam("ver"); put(0, "encodeVersion", v, 0) {
		eo = append(eo, qrcode.WithVersion(v))
	}
	mode := vxParam("mode")
	if put(1, "encodeMode", mode, 0) {
		switch mode {
		case 4:
			eo = append(eo, qrcode.WithEncodingMode(qrcode.EncModeNumeric))
		case 8:
			eo = append(eo, qrcode.WithEncodingMode(qrcode.EncModeAlphanumeric))
		case 16:
			eo = append(eo, qrcode.WithEncodingMode(qrcode.EncModeKanji))
		case 32:
			eo = append(eo, qrcode.WithEncodingMode(qrcode.EncModeByte))
		}
	}
	lv := vxSplit(vxInt("lv", 0, vxParam("lvs")))
	if put(2, "encodeECLevel", []string{"L", "M", "Q", "H"}[lv], "") {
		switch lv {
		case 0:
			eo = append(eo, qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionLow))
		case 1:
			eo = append(eo, qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionMedium))
		case 2:
			eo = append(eo, qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionQuart))
		case 3:
			eo = append(eo, qrcode.WithErrorCorrectionLevel(qrcode.ErrorCorrectionHighest))
		}
	}
	hex := func(name string, on bool) string {
		b := []byte("#8040c0")
		if on {
			b[1+vxParam("pos")] = "0123456789abcdefABCDEF"[vxInt(name, 0, 21)]
		}
		return string(b)
	}
	bg := hex("bg", set>>3&1 != 0 && vxParam("csym")&1 != 0)
	if put(3, "outputBgColor", bg, "") {
		io = append(io, standard.WithBgColorRGBHex(bg))
	}
	tr := vxParam("tr") == 0
	if put(4, "outputBgTransparent", tr, false) && tr {
		io = append(io, standard.WithBgTransparent())
	}
	fg := hex("fg", set>>5&1 != 0 && vxParam("csym")&2 != 0)
	if vxParam("csym")&2 == 0 {
		fg = "#123"
	}
	if put(5, "outputQrColor", fg, "") {
		io = append(io, standard.WithFgColorRGBHex(fg))
	}
	w := vxSplit(vxInt("w", 1, vxParam("ws")))
	if put(6, "outputQrWidth", w, 0) {
		io = append(io, standard.WithQRWidth(uint8(w)))
	}
	circle := vxParam("circle") == 0
	if put(7, "outputCircleShape", circle, false) && circle {
		io = append(io, standard.WithCircleShape())
	}
	f := standard.PNG_FORMAT
	name := []string{"jpg", "jpeg", "png"}[vxParam("fmt")]
	if put(8, "outputImageEncoder", name, "") && name != "png" {
		f = standard.JPEG_FORMAT
	}
	io = append(io, standard.WithBuiltinImageEncoder(f))
	m := vxSplit(vxInt("m", 1, vxParam("ms")))
	if put(9, "outputMargin", m, 0) {
		io = append(io, standard.WithBorderWidth(m))
	}
	if vxParam("more") != 0 {
		o.Set("somethingElse", "x")
	}
	r, crashed := vxCall(text, o)
	vxAssert(!crashed, "the program ended")
	img, ok := vxLib(text, eo, io)
	if vxParam("fails") == 0 {
		vxAssert(ok, "the library refused the options")
	}
	vxResult(r, img, ok)
	vxReach("done")
}

// vxhWasmPlain: without options the library's defaults and PNG are used; with something
// else than an object the defaults and either format.
func vxhWasmPlain() {
	text := vxText()
	img, ok := vxLib(text, nil, []standard.ImageOption{standard.WithBuiltinImageEncoder(standard.PNG_FORMAT)})
	vxAssert(ok, "the library refused the text")
	jpg, _ := vxLib(text, nil, nil)
	args := []any{text}
	switch vxParam("kind") {
	case 1:
		args = append(args, js.Null())
	case 2:
		args = append(args, js.Undefined())
	case 3:
		args = append(args, 7)
	case 4:
		args = append(args, "x", "y")
	case 5:
		args = append(args, true)
	}
	r, crashed := vxCall(args...)
	vxAssert(!crashed, "the program ended")
	if g := r.Get("base64EncodedImage"); len(args) > 1 && g.Type() == js.TypeString && len(g.String()) == len(jpg) {
		img = jpg
	}
	vxResult(r, img, ok)
	// a second call is as good as the first
	r = js.Global().Get("generateQRCode").Invoke(args...)
	vxResult(r, img, ok)
	vxReach("done")
}

// vxBadColor are the library's options for colours, of which one is no colour.
func vxBadColor(o js.Value) []standard.ImageOption {
	c := o.Get(vxParamS("key")).String()
	io := []standard.ImageOption{standard.WithBuiltinImageEncoder(standard.PNG_FORMAT), standard.WithQRWidth(1), standard.WithBorderWidth(1)}
	if vxParamS("key") == "outputBgColor" {
		return append(io, standard.WithBgColorRGBHex(c))
	}
	return append(io, standard.WithFgColorRGBHex(c))
}

// vxhWasmBad: what cannot be made is reported in the result and does not end the program.
func vxhWasmBad() {
	text := "HELLO"
	o := js.VXObject()
	args := []any{text, o}
	switch vxParam("kind") {
	case 0:
		args = nil
	case 1: // too long
		args[0] = strings.Repeat("a", 2954+vxSplit(vxInt("more", 0, 2)))
	case 2: // a text outside the mode
		o.Set("encodeMode", 4)
		b := []byte("12345")
		c := vxU8("c")
		vxAssume(c < '0' || c > '9')
		b[vxParam("pos")] = c
		args[0] = string(b)
	case 3: // an invalid colour
		b := []byte("#808080")
		c := vxU8R("c", 32, 126)
		vxAssume((c < '0' || c > '9') && (c|0x20 < 'a' || c|0x20 > 'f'))
		b[1+vxParam("pos")] = c
		o.Set(vxParamS("key"), string(b))
		o.Set("outputQrWidth", 1)
		o.Set("outputMargin", 1)
	case 4: // a colour of the wrong length
		o.Set(vxParamS("key"), "#8080808080"[:vxSplit(vxInt("n", 1, 11))])
		n := len(o.Get(vxParamS("key")).String())
		vxAssume(n != 4 && n != 7)
	case 5: // a width that does not fit
		lo := vxParam("pos")
		o.Set("outputQrWidth", vxSplit(vxInt("w", 0, 3))+lo)
	}
	r, crashed := vxCall(args...)
	vxAssert(!crashed, "the program ended")
	if vxParam("kind") == 3 {
		img, ok := vxLib(text, nil, vxBadColor(o))
		vxResult(r, img, ok)
	} else {
		vxResult(r, "", false)
	}
	// the program still works
	img, ok := vxLib(text, nil, []standard.ImageOption{standard.WithBuiltinImageEncoder(standard.PNG_FORMAT), standard.WithQRWidth(1), standard.WithBorderWidth(1)})
	o = js.VXObject()
	o.Set("outputQrWidth", 1)
	o.Set("outputMargin", 1)
	r = js.Global().Get("generateQRCode").Invoke(text, o)
	vxResult(r, img, ok)
	vxReach("done")
}

// vxhWasmType: fields of any other type do not end the program.
func vxhWasmType() {
	text := "HELLO"
	o := js.VXObject()
	o.Set("outputQrWidth", 1)
	o.Set("outputMargin", 1)
	var v any
	lo, hi := 0, 5
	if vxParam("field") == 6 { // the default width makes large images
		lo, hi = 2, 2
	}
	switch vxSplit(vxInt("type", lo, hi)) {
	case 0:
		v = nil
	case 1:
		v = vxBool("b")
	case 2:
		v = []int{-1, 0, 1, 3, 5}[vxSplit(vxInt("i", 0, 4))]
		if vxParam("field") == 6 {
			v = []int{-1, 2, 1, 3, 5}[vxParam("i")]
		}
		if f := vxParam("field"); v == 5 && (f == 0 || f == 6) {
			v = 1000
		}
	case 3:
		v = "x"
	case 4:
		v = js.VXObject()
	case 5:
		v = js.FuncOf(func(this js.Value, args []js.Value) any { return nil })
	}
	o.Set([]string{"encodeVersion", "encodeMode", "encodeECLevel", "outputBgColor", "outputBgTransparent", "outputQrColor",
		"outputQrWidth", "outputCircleShape", "outputImageEncoder", "outputMargin"}[vxParam("field")], v)
	r, crashed := vxCall(text, o)
	vxAssert(!crashed, "the program ended")
	vxAssert(r.Get("success").Bool() == (r.Get("error").String() == "") && r.Get("success").Bool() == (r.Get("base64EncodedImage").String() != ""), "neither an image nor an error")
	vxReach("done")
}
