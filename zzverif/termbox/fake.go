package termbox

import "errors"

// A terminal that is not there, for native replays: VerifSize and VerifNext are
// the harness's, nothing is drawn.

var VerifSize = func() (int, int) { return 80, 24 }
var VerifNext = func() Event { return Event{Type: EventError, Err: errors.New("no terminal")} }

func Init() error                                 { return nil }
func Close()                                      {}
func SetOutputMode(m OutputMode) OutputMode       { return m }
func SetInputMode(m InputMode) InputMode          { return m }
func Size() (int, int)                            { return VerifSize() }
func SetCell(x, y int, ch rune, fg, bg Attribute) {}
func SetCursor(x, y int)                          {}
func HideCursor()                                 {}
func Clear(fg, bg Attribute) error                { return nil }
func Flush() error                                { return nil }
func PollEvent() Event                            { return VerifNext() }
func CellBuffer() []Cell                          { return nil }
