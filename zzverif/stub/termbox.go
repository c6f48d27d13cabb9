package stub

import (
	"github.com/charlesetsmith/saratoga/zzverif/term"
	"github.com/jroimartin/gocui"
	"github.com/nsf/termbox-go"
)

// The terminal of package term.
func termbox_go_Init() error {
	if TermError == nil {
		Term++
	}
	return TermError
}
func termbox_go_Close() {
	if Term > 0 {
		Term--
	}
}
func termbox_go_SetOutputMode(m termbox.OutputMode) termbox.OutputMode { return m }
func termbox_go_SetInputMode(m termbox.InputMode) termbox.InputMode    { return m }
func termbox_go_Size() (int, int)                                      { return term.X, term.Y }
func termbox_go_SetCell(x, y int, ch rune, fg, bg termbox.Attribute)   {}
func termbox_go_SetCursor(x, y int)                                    {}
func termbox_go_HideCursor()                                           {}
func termbox_go_Clear(fg, bg termbox.Attribute) error                  { return nil }
func termbox_go_Flush() error                                          { return nil }
func termbox_go_PollEvent() termbox.Event                              { return term.Poll() }

// Term is 1 while the node has the terminal.
var Term int

// TermError: there is no terminal.
var TermError error

// Drawing alone.
func gocui_View_clearRunes(v *gocui.View)                                                {}
func gocui_Gui_drawFrameEdges(g *gocui.Gui, v *gocui.View, fg, bg gocui.Attribute) error { return nil }
func gocui_Gui_drawFrameCorners(g *gocui.Gui, v *gocui.View, fg, bg gocui.Attribute) error {
	return nil
}
