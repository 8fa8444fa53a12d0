package termbox

// A stand-in for termbox-go in the harnesses of the terminal writer and of the command:
// a screen in memory and a given sequence of events.

import "errors"

const VXWidth, VXHeight = 400, 220

var (
	VXInits, VXCloses int
	VXShown           map[[2]int]Cell // the screen as last flushed; nil: never
	VXEvents          []Event
	VXFlushErr        error
	VXInitErr         error
	vxBack            map[[2]int]Cell
)

func VXReset() {
	VXInits, VXCloses, VXShown, VXEvents, VXFlushErr, VXInitErr = 0, 0, nil, nil, nil, nil
	vxBack = map[[2]int]Cell{}
	IsInit = false
}

func Init() error {
	if VXInitErr != nil {
		return VXInitErr
	}
	VXInits++
	IsInit = true
	vxBack = map[[2]int]Cell{}
	return nil
}
func Interrupt() {}
func Close() {
	if IsInit {
		VXCloses++
	}
	IsInit = false
}
func Flush() error {
	if VXFlushErr != nil {
		return VXFlushErr
	}
	if !IsInit {
		return errors.New("vx: not initialised")
	}
	VXShown = map[[2]int]Cell{}
	for k, v := range vxBack {
		VXShown[k] = v
	}
	return nil
}
func SetCursor(x, y int) {}
func HideCursor()        {}
func vxOut(x, y int) bool {
	return x < 0 || y < 0 || x >= VXWidth || y >= VXHeight
}
func SetCell(x, y int, ch rune, fg, bg Attribute) {
	if !IsInit || vxOut(x, y) {
		return
	}
	vxBack[[2]int{x, y}] = Cell{ch, fg, bg}
}
func GetCell(x, y int) Cell { return vxBack[[2]int{x, y}] }
func SetChar(x, y int, ch rune) {
	c := GetCell(x, y)
	SetCell(x, y, ch, c.Fg, c.Bg)
}
func SetFg(x, y int, fg Attribute) {
	c := GetCell(x, y)
	SetCell(x, y, c.Ch, fg, c.Bg)
}
func SetBg(x, y int, bg Attribute) {
	c := GetCell(x, y)
	SetCell(x, y, c.Ch, c.Fg, bg)
}
func CellBuffer() []Cell                    { panic("vx: CellBuffer is not modelled") }
func ParseEvent(data []byte) Event          { panic("vx: ParseEvent is not modelled") }
func PollRawEvent(data []byte) Event        { panic("vx: PollRawEvent is not modelled") }
func Size() (width int, height int)         { return VXWidth, VXHeight }
func SetInputMode(m InputMode) InputMode    { return InputEsc }
func SetOutputMode(m OutputMode) OutputMode { return Output256 }
func Sync() error                           { return Flush() }

func Clear(fg, bg Attribute) error {
	for x := 0; x < VXWidth; x++ {
		for y := 0; y < VXHeight; y++ {
			SetCell(x, y, ' ', fg, bg)
		}
	}
	return nil
}

func PollEvent() Event {
	if len(VXEvents) == 0 {
		panic("vx: waits although a key was pressed")
	}
	e := VXEvents[0]
	VXEvents = VXEvents[1:]
	return e
}
