// Package term is the terminal of the harnesses that run the real gocui: so many
// columns and rows, events that come one by one when the node is idle, and an
// error when there are no more of them.
package term

import (
	"errors"

	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/nsf/termbox-go"
)

var X, Y int = 80, 24
var Events func() (termbox.Event, bool)
var ErrDone = errors.New("no more events")

// Use: gocui itself, not its stubs.
func Use() {
	for _, f := range []string{"gocui_Gui_Update", "gocui_NewGui", "gocui_Gui_Close", "gocui_Gui_Size", "gocui_Gui_MainLoop", "gocui_View_Write", "gocui_View_Line"} {
		sym.Real(f)
	}
}

func Poll() termbox.Event {
	sym.WaitIdle()
	if e, ok := Events(); ok {
		return e
	}
	return termbox.Event{Type: termbox.EventError, Err: ErrDone}
}
