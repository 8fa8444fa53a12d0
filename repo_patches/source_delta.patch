From bf1b35a956289deb6ec53c592cbf0dff17a6b73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 01/18] fix: do not select Kanji mode for a text that starts
 with other characters

---
 chardet.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/chardet.go b/chardet.go
index 8035b9f..16df25d 100644
--- a/chardet.go
+++ b/chardet.go
@@ -59,7 +59,7 @@ func analyzeEncodeModeFromRaw(raw string) (encMode, error) {
 
 	// Loop to check each character in raw data,
 	// from low mode to higher while current mode could bear the input data.
-	for _, r := range raw {
+	for i, r := range raw {
 	reAnalyze:
 		// issue#28 @borislavone reports this bug.
 		// FIXED(@yeqown): next encMode analyzeVersionAuto func did not check the previous byte,
@@ -72,6 +72,12 @@ func analyzeEncodeModeFromRaw(raw string) (encMode, error) {
 			break
 		}
 
+		// The Kanji set does not contain the characters accepted so far by the numeric or
+		// alphanumeric mode, so such a mixed text has to be encoded in Byte mode.
+		if mode == EncModeKanji && i > 0 {
+			_ = next()
+		}
+
 		goto reAnalyze
 	}
 
-- 
2.43.0


From b367a2c65058fd66348245a043c794c2fccf20f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 02/18] fix: choose the same mask every time when scores are
 equal

---
 qrcode.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qrcode.go b/qrcode.go
index 0852331..d8a384d 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -707,7 +707,8 @@ func (q *QRCode) masking() {
 	close(scoreChan)
 
 	for c := range scoreChan {
-		if c.Score < lowScore {
+		// scores arrive in any order, the lowest mask wins a tie so that the symbol is deterministic
+		if c.Score < lowScore || (c.Score == lowScore && c.Idx < markMatsIdx) {
 			lowScore = c.Score
 			markMatsIdx = c.Idx
 		}
-- 
2.43.0


From 265cffebfb5cec86eab8a499a8423f4f578204f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 03/18] fix: accept named string and byte slice types as text

---
 qrcode.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/qrcode.go b/qrcode.go
index d8a384d..12409df 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -28,14 +28,7 @@ func NewWith[T ~string | ~[]byte](text T, opts ...EncodeOption) (*QRCode, error)
 }
 
 func toBytes[T ~string | ~[]byte](v T) []byte {
-	switch x := any(v).(type) {
-	case string:
-		return []byte(x)
-	case []byte:
-		return x
-	default:
-		panic("unreachable")
-	}
+	return []byte(v)
 }
 
 // validateEncodingMode checks if the specified encoding mode is compatible with the input text.
-- 
2.43.0


From da103322242e5ada6ceee06a69e3f05bab5cd516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:43 +0000
Subject: [PATCH 04/18] fix: return an error instead of panicking for an
 unsupported encoding mode

---
 qrcode.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qrcode.go b/qrcode.go
index 12409df..46d3dca 100644
--- a/qrcode.go
+++ b/qrcode.go
@@ -47,7 +47,7 @@ func validateEncodingMode(mode encMode, text string) error {
 		// Byte mode can encode any character
 		return nil
 	default:
-		return nil
+		return fmt.Errorf("unsupported encoding mode: %s", getEncModeName(mode))
 	}
 
 	for _, r := range text {
-- 
2.43.0


From 03bf08c612b7bc51775983a1d4997d0d8521be60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 05/18] fix: compare colours only in penalty rule 2

---
 mask_evaluation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index 2c75a6b..107ba77 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -80,7 +80,7 @@ func rule2(mat *Matrix) int {
 			s2, _ = mat.at(x, y+1)
 			s3, _ = mat.at(x+1, y+1)
 
-			if s0 == s1 && s2 == s3 && s1 == s2 {
+			if samestate(s0, s1) && samestate(s2, s3) && samestate(s1, s2) {
 				score += 3
 			}
 		}
-- 
2.43.0


From ff7521dde9054229c95706a87393e9f0f4323963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 06/18] fix: look for the finder-like pattern in all modules in
 penalty rule 3

---
 mask_evaluation.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index 107ba77..79fea98 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -113,8 +113,8 @@ func rule3(mat *Matrix) (score int) {
 	dimension := mat.Width()
 
 	for i := 0; i < dimension; i++ {
-		col := mat.Col(i)
-		row := mat.Row(i)
+		col := colours(mat.Col(i))
+		row := colours(mat.Row(i))
 
 		// DONE(@yeqown): statePattern1 and statePattern2 are fixed, so maybe kmpGetNext
 		// could cache result to speed up.
@@ -127,6 +127,20 @@ func rule3(mat *Matrix) (score int) {
 	return score
 }
 
+// colours returns a copy of line which keeps the colour of each module only, so that
+// modules of any type can be compared with a pattern.
+func colours(line []qrvalue) []qrvalue {
+	plain := make([]qrvalue, len(line))
+	for i, v := range line {
+		plain[i] = QRValue_DATA_V0
+		if v.qrbool() {
+			plain[i] = QRValue_DATA_V1
+		}
+	}
+
+	return plain
+}
+
 // rule4 is based on the ratio of light modules to dark modules:
 //
 // 1. Count the total number of modules in the matrix.
-- 
2.43.0


From d6739dce9706ee9fe6aed21a5184d5faaa97ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:12 +0000
Subject: [PATCH 07/18] fix: do not round the dark module ratio in penalty rule
 4

---
 mask_evaluation.go | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/mask_evaluation.go b/mask_evaluation.go
index 79fea98..8a40b00 100644
--- a/mask_evaluation.go
+++ b/mask_evaluation.go
@@ -172,14 +172,7 @@ func rule4(mat *Matrix) int {
 		}
 	}
 
-	ratio := (dark * 100) / total // in range [0, 100]
-	step := 0
-	if ratio%5 == 0 {
-		step = 1
-	}
-
-	previous := abs((ratio/5-step)*5 - 50)
-	next := abs((ratio/5+1-step)*5 - 50)
-
-	return min(previous, next) / 5 * 10
+	// number of whole steps of 5% between the ratio and 50%, without rounding the ratio: the multiple
+	// of five that is nearer to 50% is that many steps away from it.
+	return abs(dark*20-total*10) / total * 10
 }
-- 
2.43.0


From a95fb3bd66dccafd42121115ad34e57a1d958e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:23 +0000
Subject: [PATCH 08/18] fix: centre a logo whose bounds do not start at the
 origin

---
 writer/standard/writer.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index 65d6bc4..c21f8e1 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -235,7 +235,9 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 
 	// DONE(@yeqown): calculate the xOffset and yOffset which point(xOffset, yOffset)
 	// should icon upper-left to start
-	dc.DrawImage(opt.logoImage(), (w-logoWidth)/2, (h-logoHeight)/2)
+	// NOTE: DrawImage keeps the origin of the image's bounds, so take it away.
+	dc.DrawImage(opt.logoImage(),
+		(w-logoWidth)/2-opt.logo.Bounds().Min.X, (h-logoHeight)/2-opt.logo.Bounds().Min.Y)
 
 done:
 	return dc.Image()
-- 
2.43.0


From 59f20239ab7d76795c4e0c8fe3ea83f8b0bcae47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:23 +0000
Subject: [PATCH 09/18] fix: clear the logo safe zone in the neighbours' bitmap
 at the right modules

---
 writer/standard/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/standard/writer.go b/writer/standard/writer.go
index c21f8e1..a3d8d63 100644
--- a/writer/standard/writer.go
+++ b/writer/standard/writer.go
@@ -160,7 +160,7 @@ func draw(mat qrcode.Matrix, opt *outputImageOptions) image.Image {
 	if logoValid && opt.logoSafeZone {
 		mat.Iterate(qrcode.IterDirection_ROW, func(x int, y int, v qrcode.QRValue) {
 			if blockOverlapsLogo(x, y, opt.qrBlockWidth(), left, top, w, h, logoWidth, logoHeight) {
-				bitMap[x][y] = false
+				bitMap[y][x] = false
 			}
 		})
 	}
-- 
2.43.0


From 651c91ff5289eb77f70efc3ee72dbf321e24a386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:23 +0000
Subject: [PATCH 10/18] fix: truncate an existing file before writing a
 compressed image

---
 writer/compressed/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/compressed/writer.go b/writer/compressed/writer.go
index 19bc71e..9166d40 100644
--- a/writer/compressed/writer.go
+++ b/writer/compressed/writer.go
@@ -30,7 +30,7 @@ var (
 )
 
 func New(filename string, opt *Option) (qrcode.Writer, error) {
-	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE, 0644)
+	fd, err := os.OpenFile(filename, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From bb8c6c89db4fcc224212d8598767ae9cfcb5099f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:23 +0000
Subject: [PATCH 11/18] fix: use the given stripe ratio in HStripeBlock

---
 writer/standard/shapes/blocks.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/writer/standard/shapes/blocks.go b/writer/standard/shapes/blocks.go
index 31322f8..c5daf3e 100644
--- a/writer/standard/shapes/blocks.go
+++ b/writer/standard/shapes/blocks.go
@@ -131,7 +131,7 @@ func HStripeBlock(stripeRatio float64) func(ctx *standard.DrawContext) {
 		fw, fh := float64(w), float64(h)
 		x, y := ctx.UpperLeft()
 		cx, cy := x+fw/2, y+fh/2
-		r := fw * 0.9 / 2
+		r := fw * stripeRatio / 2
 
 		ctx.SetColor(ctx.Color())
 
-- 
2.43.0


From dc555e627068fe2edeea06cdb40706fcda51bdeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:23 +0000
Subject: [PATCH 12/18] fix: convert images whose bounds do not start at the
 origin

---
 writer/standard/imgkit/process.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/writer/standard/imgkit/process.go b/writer/standard/imgkit/process.go
index 5cbfd87..4278e08 100644
--- a/writer/standard/imgkit/process.go
+++ b/writer/standard/imgkit/process.go
@@ -20,10 +20,10 @@ func Binaryzation(src image.Image, threshold uint8) image.Image {
 	for i := 0; i < height; i++ {
 		for j := 0; j < width; j++ {
 			// var rgb int = int(gray[i][j][0]) + int(gray[i][j][1]) + int(gray[i][j][2])
-			if gray.At(j, i).(color.Gray).Y > threshold {
-				gray.Set(j, i, color.White)
+			if gray.At(bounds.Min.X+j, bounds.Min.Y+i).(color.Gray).Y > threshold {
+				gray.Set(bounds.Min.X+j, bounds.Min.Y+i, color.White)
 			} else {
-				gray.Set(j, i, color.Black)
+				gray.Set(bounds.Min.X+j, bounds.Min.Y+i, color.Black)
 			}
 		}
 	}
@@ -38,8 +38,8 @@ func Gray(src image.Image) *image.Gray {
 
 	for i := 0; i < height; i++ {
 		for j := 0; j < width; j++ {
-			c := color.GrayModel.Convert(src.At(j, i))
-			gray.SetGray(j, i, c.(color.Gray))
+			c := color.GrayModel.Convert(src.At(bounds.Min.X+j, bounds.Min.Y+i))
+			gray.SetGray(bounds.Min.X+j, bounds.Min.Y+i, c.(color.Gray))
 		}
 	}
 
-- 
2.43.0


From 8f09e75bae394191769850a0d6d7e6e94d4b0f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:29 +0000
Subject: [PATCH 13/18] fix: refuse block sizes that do not fit in a uint8

---
 cmd/qrcode/app.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cmd/qrcode/app.go b/cmd/qrcode/app.go
index a3dbc9e..317f2c7 100644
--- a/cmd/qrcode/app.go
+++ b/cmd/qrcode/app.go
@@ -1,6 +1,7 @@
 package main
 
 import (
+	"math"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -144,6 +145,11 @@ func parseGenerateContextFrom(c *cli.Context) *generateContext {
 		TOO: &terminalOutputOptions{},
 	}
 
+	// block size
+	if c.Uint("block") > math.MaxUint8 {
+		panic("invalid block size, want: uint8")
+	}
+
 	// writer mode
 	if c.Bool("terminal") {
 		genCtx.mode = writerMode_TERMINAL
-- 
2.43.0


From 6c6e3f64762747a7addebc5d9cd4f8bd26573bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:29 +0000
Subject: [PATCH 14/18] fix: writing a transparent symbol changed the options
 for the next one

---
 writer/standard/image_option.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/writer/standard/image_option.go b/writer/standard/image_option.go
index 9efd4d2..9e21d26 100644
--- a/writer/standard/image_option.go
+++ b/writer/standard/image_option.go
@@ -72,11 +72,13 @@ func (oo *outputImageOptions) backgroundColor() color.RGBA {
 		return color_WHITE
 	}
 
+	// NOTE: do not change the options, several symbols may be written with them.
+	bg := oo.bgColor
 	if oo.bgTransparent {
-		(&oo.bgColor).A = 0x00
+		bg.A = 0x00
 	}
 
-	return oo.bgColor
+	return bg
 }
 
 func (oo *outputImageOptions) logoImage() image.Image {
@@ -148,11 +150,8 @@ func (oo *outputImageOptions) translateToRGBA(v qrcode.QRValue) (rgba color.RGBA
 	}
 
 	if oo.bgTransparent {
-		(&oo.bgColor).A = 0x00
 		// color.RGBA is pre-multiplied by alpha, so set RGB to 0 when fully transparent.
-		(&oo.bgColor).R = 0x00
-		(&oo.bgColor).G = 0x00
-		(&oo.bgColor).B = 0x00
+		return color.RGBA{}
 	}
 	rgba = oo.bgColor
 
-- 
2.43.0


From ea1cbfffc51f4c08df39d06dade906ca5b356256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:00:29 +0000
Subject: [PATCH 15/18] fix: ignore an empty foreground colour as an empty
 background colour is

---
 writer/standard/image_option_api.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/writer/standard/image_option_api.go b/writer/standard/image_option_api.go
index a637bc0..75f76d5 100644
--- a/writer/standard/image_option_api.go
+++ b/writer/standard/image_option_api.go
@@ -70,6 +70,10 @@ func WithFgColor(c color.Color) ImageOption {
 // WithFgColorRGBHex Hex string to set QR Color
 func WithFgColorRGBHex(hex string) ImageOption {
 	return newFuncOption(func(oo *outputImageOptions) {
+		if hex == "" {
+			return
+		}
+
 		oo.qrColor = parseFromHex(hex)
 	})
 }
-- 
2.43.0


From 3f58988342ad4754dec32c582d4c93cf3327ce55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:03 +0000
Subject: [PATCH 16/18] fix: let wasm options leave out fields

Reading a field that the options object does not have panicked, which ended
the wasm program, so that every later call failed too.
---
 cmd/wasm/types.go | 45 ++++++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/cmd/wasm/types.go b/cmd/wasm/types.go
index 7c9783a..1e83f76 100644
--- a/cmd/wasm/types.go
+++ b/cmd/wasm/types.go
@@ -36,7 +36,30 @@ type genOption struct {
 	outputOption
 }
 
-// optionFromJSValue converts js.Value to genOption.
+// intField returns the number in field key of option, 0 if there is none.
+func intField(option js.Value, key string) int {
+	if v := option.Get(key); v.Type() == js.TypeNumber {
+		return v.Int()
+	}
+	return 0
+}
+
+// boolField returns the boolean in field key of option, false if there is none.
+func boolField(option js.Value, key string) bool {
+	v := option.Get(key)
+	return v.Type() == js.TypeBoolean && v.Bool()
+}
+
+// stringField returns the string in field key of option, "" if there is none.
+func stringField(option js.Value, key string) string {
+	if v := option.Get(key); v.Type() == js.TypeString {
+		return v.String()
+	}
+	return ""
+}
+
+// optionFromJSValue converts js.Value to genOption. Fields which are missing keep their
+// zero value, that is the default.
 func optionFromJSValue(option js.Value) *genOption {
 	//fmt.Println(option.Type().String())
 	if option.IsNull() || option.IsUndefined() || option.Type().String() != "object" {
@@ -46,18 +69,18 @@ func optionFromJSValue(option js.Value) *genOption {
 
 	return &genOption{
 		encodeOption: encodeOption{
-			version: option.Get("encodeVersion").Int(),
-			mode:    uint8(option.Get("encodeMode").Int()),
-			ecLevel: option.Get("encodeECLevel").String(),
+			version: intField(option, "encodeVersion"),
+			mode:    uint8(intField(option, "encodeMode")),
+			ecLevel: stringField(option, "encodeECLevel"),
 		},
 		outputOption: outputOption{
-			bgColor:       option.Get("outputBgColor").String(),
-			bgTransparent: option.Get("outputBgTransparent").Bool(),
-			qrColor:       option.Get("outputQrColor").String(),
-			qrWidth:       uint8(option.Get("outputQrWidth").Int()),
-			circleShape:   option.Get("outputCircleShape").Bool(),
-			imageEncoder:  option.Get("outputImageEncoder").String(),
-			margin:        option.Get("outputMargin").Int(),
+			bgColor:       stringField(option, "outputBgColor"),
+			bgTransparent: boolField(option, "outputBgTransparent"),
+			qrColor:       stringField(option, "outputQrColor"),
+			qrWidth:       uint8(intField(option, "outputQrWidth")),
+			circleShape:   boolField(option, "outputCircleShape"),
+			imageEncoder:  stringField(option, "outputImageEncoder"),
+			margin:        intField(option, "outputMargin"),
 		},
 	}
 }
-- 
2.43.0


From 9bf6bcb154d9f873895b0a4c458bed26de50d155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:03 +0000
Subject: [PATCH 17/18] fix: report a panic of the wasm generator as an error

An invalid color ended the wasm program instead of giving the error.
---
 cmd/wasm/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/wasm/main.go b/cmd/wasm/main.go
index 4f5c67e..9bc7520 100644
--- a/cmd/wasm/main.go
+++ b/cmd/wasm/main.go
@@ -41,6 +41,10 @@ func genqrcode(_ js.Value, args []js.Value) (v interface{}) {
 	)
 
 	defer func() {
+		// a panic (e.g. of an option with an invalid color) would end the wasm program.
+		if e := recover(); e != nil {
+			r.setError(errors.Errorf("genqrcode: %v", e))
+		}
 		v = r.JSValue()
 	}()
 
-- 
2.43.0


From fc05b2fd530b53229bf2abcd05f5435551acf6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:22 +0000
Subject: [PATCH 18/18] fix: refuse a wasm block width that does not fit

A width of 256 or more was silently reduced modulo 256.
---
 cmd/wasm/main.go  |  8 ++++----
 cmd/wasm/types.go | 12 +++++++++---
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/cmd/wasm/main.go b/cmd/wasm/main.go
index 9bc7520..a9d2622 100644
--- a/cmd/wasm/main.go
+++ b/cmd/wasm/main.go
@@ -61,10 +61,10 @@ func genqrcode(_ js.Value, args []js.Value) (v interface{}) {
 		opt = optionFromJSValue(args[1])
 	}
 
-	//if err := opt.validate(); err != nil {
-	//	r.setError(errors.Wrap(err, "invalid option"))
-	//	return
-	//}
+	if err := opt.validate(); err != nil {
+		r.setError(errors.Wrap(err, "invalid option"))
+		return
+	}
 
 	qrc, err := qrcode.NewWith(srcContent, opt.encodeOptions()...)
 	if err != nil {
diff --git a/cmd/wasm/types.go b/cmd/wasm/types.go
index 1e83f76..cf6c200 100644
--- a/cmd/wasm/types.go
+++ b/cmd/wasm/types.go
@@ -6,8 +6,10 @@ import (
 	"bytes"
 	"encoding/base64"
 	"io"
+	"math"
 	"syscall/js"
 
+	"github.com/pkg/errors"
 	"github.com/yeqown/go-qrcode/v2"
 	stdw "github.com/yeqown/go-qrcode/writer/standard"
 )
@@ -24,7 +26,7 @@ type outputOption struct {
 	bgColor       string // outputBgColor is the background color of the QR code image.
 	bgTransparent bool   // outputBgTransparent indicates whether the background color is transparent.
 	qrColor       string // outputQrColor is the foreground color of the QR code.
-	qrWidth       uint8  // outputQrWidth is the width of the QR code.
+	qrWidth       int    // outputQrWidth is the width of the QR code.
 	circleShape   bool   // outputCircleShape indicates whether to draw the qr block in circle shape.
 	imageEncoder  string // outputImageEncoder specifies file format would be encoded the QR image. (jpg/jpeg/png)
 	margin        int    // outputMargin is the border width of the output image.
@@ -77,7 +79,7 @@ func optionFromJSValue(option js.Value) *genOption {
 			bgColor:       stringField(option, "outputBgColor"),
 			bgTransparent: boolField(option, "outputBgTransparent"),
 			qrColor:       stringField(option, "outputQrColor"),
-			qrWidth:       uint8(intField(option, "outputQrWidth")),
+			qrWidth:       intField(option, "outputQrWidth"),
 			circleShape:   boolField(option, "outputCircleShape"),
 			imageEncoder:  stringField(option, "outputImageEncoder"),
 			margin:        intField(option, "outputMargin"),
@@ -91,6 +93,10 @@ func (o *genOption) validate() error {
 		return nil
 	}
 
+	if o.outputOption.qrWidth < 0 || o.outputOption.qrWidth > math.MaxUint8 {
+		return errors.Errorf("outputQrWidth %d is out of range (0-%d)", o.outputOption.qrWidth, math.MaxUint8)
+	}
+
 	return nil
 }
 
@@ -147,7 +153,7 @@ func (o *genOption) outputOptions() []stdw.ImageOption {
 		out = append(out, stdw.WithFgColorRGBHex(o.outputOption.qrColor))
 	}
 	if o.outputOption.qrWidth != 0 {
-		out = append(out, stdw.WithQRWidth(o.outputOption.qrWidth))
+		out = append(out, stdw.WithQRWidth(uint8(o.outputOption.qrWidth)))
 	}
 	if o.outputOption.circleShape {
 		out = append(out, stdw.WithCircleShape())
-- 
2.43.0

