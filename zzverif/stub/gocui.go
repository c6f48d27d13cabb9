package stub

import (
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/jroimartin/gocui"
)

// The terminal: there is none. RunUpdates makes Gui.Update run what it is given
// (the main loop does, later); otherwise it is dropped.

var RunUpdates bool

// RunDetached makes it run them too, as the main loop does at some later time.
var RunDetached bool

var Updates int

func gocui_Gui_Update(g *gocui.Gui, f func(*gocui.Gui) error) {
	Updates++
	if RunDetached {
		sym.Detached(func() { f(g) })
	}
	if RunUpdates {
		f(g)
	}
}

// Gui is the last one made.
var Gui *gocui.Gui

func gocui_NewGui(mode gocui.OutputMode) (*gocui.Gui, error) {
	Gui = &gocui.Gui{}
	return Gui, nil
}

func gocui_Gui_Close(g *gocui.Gui)           {}
func gocui_Gui_Size(g *gocui.Gui) (x, y int) { return 80, 24 }
func gocui_Gui_MainLoop(g *gocui.Gui) error  { <-make(chan bool); return nil }
func gocui_View_Write(v *gocui.View, p []byte) (int, error) {
	if RunDetached {
		return 0, nil // nobody looks
	}
	return len(p), nil
}

// The line under the cursor.
var ViewLine string
var ViewLineError error

func gocui_View_Line(v *gocui.View, y int) (string, error) { return ViewLine, ViewLineError }
