package sarwin

import (
	"strconv"
	"strings"

	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/term"
	"github.com/jroimartin/gocui"
	"github.com/nsf/termbox-go"
)

var c32prompt = "saratoga"
var c32first = 0 // commands given before

func c32key(k gocui.Key) termbox.Event {
	return termbox.Event{Type: termbox.EventKey, Key: termbox.Key(k)}
}
func c32rune(c rune) termbox.Event { return termbox.Event{Type: termbox.EventKey, Ch: c} }

// c32run: the node's main loop with the real gocui on a terminal that gives these events.
func c32run(next func(g *gocui.Gui) (termbox.Event, bool)) *gocui.Gui {
	term.Use()
	var g *gocui.Gui
	term.Events = func() (termbox.Event, bool) { return next(g) }
	Cinfo.Prompt, Cinfo.Ppad = c32prompt, 3
	g, err := gocui.NewGui(gocui.OutputNormal)
	if err != nil {
		panic(err)
	}
	g.SetManagerFunc(Layout)
	if Keybindings(g) != nil {
		sym.Fail("the keys are bound")
	}
	sym.Assert(g.MainLoop() == term.ErrDone, "the node goes on")
	return g
}

// c32at: the cursor is just behind an empty prompt, which is the last line.
func c32at(g *gocui.Gui, line int) {
	v, err := g.View("cmd")
	if err != nil {
		sym.Fail("there is a command window")
		return
	}
	want := c32prompt + "[" + strconv.Itoa(line) + "]:"
	rows := v.ViewBufferLines()
	_, oy := v.Origin()
	cx, cy := v.Cursor()
	sym.Assert(len(rows) > 0 && rows[len(rows)-1] == want, "the last line is a new prompt")
	sym.Assert(cx == len([]rune(want)) && oy+cy == len(rows)-1, "the cursor is behind the prompt")
}

// The keys pressed one after the other, and the commands they make.
func Verif_C32_edit() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	sym.Bound("4 (thorough: 5) keys, each a digit of any value or a colon, another character U+00A1..U+07FF, backspace, delete, left, right or insert, and enter; then one digit and enter")
	c32edit(n)
}

// The same when many commands have been given before.
func Verif_C32_late() {
	sym.Bound("1 (thorough: 2) such keys and enter, then one digit and enter, as the 10th or 100th command")
	n := 1
	if sym.Thorough() {
		n = 2
	}
	c32first = []int{9, 99}[sym.Choose("line", 2)]
	c32edit(n)
}

func c32edit(n int) {
	var keys []termbox.Event
	for i := 0; i < c32first; i++ {
		keys = append(keys, c32rune('7'), c32key(gocui.KeyEnter))
	}
	var text []rune
	pos, over := 0, true
	for i := 0; i < n; i++ {
		switch k := sym.Choose("key", 7); k {
		case 0, 6:
			var c rune
			if k == 0 {
				c = rune(sym.Range("digit", '0', ':'))
			} else {
				c = rune(sym.Range("character", 0xa1, 0x7ff))
			}
			keys = append(keys, c32rune(c))
			if pos == len(text) {
				text = append(text, c)
			} else if over {
				text[pos] = c
			} else {
				text = append(text[:pos], append([]rune{c}, text[pos:]...)...)
			}
			pos++
		case 1, 2:
			k := gocui.KeyBackspace2
			if sym.Bool("delete") {
				k = gocui.KeyDelete
			}
			keys = append(keys, c32key(k))
			if pos > 0 {
				text = append(text[:pos-1], text[pos:]...)
				pos--
			}
		case 3:
			keys = append(keys, c32key(gocui.KeyArrowLeft))
			if pos > 0 {
				pos--
			}
		case 4:
			keys = append(keys, c32key(gocui.KeyArrowRight))
			if pos < len(text) {
				pos++
			}
		case 5:
			keys = append(keys, c32key(gocui.KeyInsert))
			over = !over
		}
	}
	keys = append(keys, c32key(gocui.KeyEnter))
	last := byte(sym.Range("last", '0', '9'))
	keys = append(keys, c32rune(rune(last)), c32key(gocui.KeyEnter))
	want := []string{string(text), string([]byte{last})}
	if len(text) == 0 {
		want = want[1:]
	}
	i := 0
	g := c32run(func(*gocui.Gui) (termbox.Event, bool) {
		if i == len(keys) {
			return termbox.Event{}, false
		}
		i++
		return keys[i-1], true
	})
	sym.Assert(len(Cinfo.Commands) == c32first+len(want), "each line entered is run once")
	for j := range want {
		if c32first+j < len(Cinfo.Commands) {
			sym.Assert(sym.EqStr(Cinfo.Commands[c32first+j], want[j]), "what is run is what was typed")
		}
	}
	c32at(g, c32first+len(want))
	sym.Cover("ran")
}

// Commands of many lengths, some longer than the window is wide.
func Verif_C32_long() {
	sym.Bound("terminals of 80 and 100 columns, 24 rows and more; three commands: of 1..60 bytes, of 1, 26 or 40 bytes, of 1 byte")
	term.X = 80 + 20*sym.Choose("wide", 2)
	term.Y = 24 + 8*sym.Choose("high", 2)
	var cmds []string
	cmds = append(cmds, strings.Repeat("7", 1+sym.Choose("length", 60)))
	cmds = append(cmds, strings.Repeat("8", []int{1, 26, 40}[sym.Choose("second", 3)]))
	cmds = append(cmds, "9")
	c32type(cmds)
}

// Many commands.
func Verif_C32_many() {
	sym.Bound("12 commands of one or two bytes, on terminals of 16, 24 and 48 rows, with a prompt of ASCII, of other characters, with a colon, or none")
	c32prompt = []string{"saratoga", "š≈", "a:b", ":", ""}[sym.Choose("prompt", 5)]
	term.Y = []int{16, 24, 48}[sym.Choose("high", 3)]
	var cmds []string
	for i := 0; i < 12; i++ {
		cmds = append(cmds, strconv.Itoa(i%10)+strings.Repeat(":", i%2))
	}
	c32type(cmds)
}

func c32type(cmds []string) {
	text := strings.Join(cmds, "\n") + "\n"
	i, entered := 0, 0
	c32run(func(g *gocui.Gui) (termbox.Event, bool) {
		if i == 0 || text[i-1] == '\n' {
			sym.Assert(len(Cinfo.Commands) == entered, "each line entered is run once")
			if entered > 0 && len(Cinfo.Commands) == entered {
				sym.Assert(Cinfo.Commands[entered-1] == cmds[entered-1], "what is run is what was typed")
			}
			c32at(g, entered)
		}
		if i == len(text) {
			return termbox.Event{}, false
		}
		i++
		if text[i-1] == '\n' {
			entered++
			return c32key(gocui.KeyEnter), true
		}
		return c32rune(rune(text[i-1])), true
	})
	sym.Cover("ran")
}

// Any keys in any of the windows: the node goes on, and back at the prompt it runs what is typed.
func Verif_C32_keys() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	sym.Bound("two commands, then 3 (thorough: 4) keys, each ctrl-space, ctrl-P, up, down, left, right, enter, backspace, a digit or any key that is bound to nothing, in a terminal of 16 or 24 rows with up to 30 messages and 30 errors")
	term.Y = []int{24, 16}[sym.Choose("high", 2)]
	lines := 30 * sym.Choose("lines", 2)
	packet := false
	var keys []termbox.Event
	text := "1\n2\n"
	for i := 0; i < len(text); i++ {
		if text[i] == '\n' {
			keys = append(keys, c32key(gocui.KeyEnter))
		} else {
			keys = append(keys, c32rune(rune(text[i])))
		}
	}
	bound := []gocui.Key{gocui.KeyCtrlSpace, gocui.KeyCtrlP, gocui.KeyArrowUp, gocui.KeyArrowDown, gocui.KeyArrowLeft, gocui.KeyArrowRight, gocui.KeyEnter, gocui.KeyBackspace2}
	for i := 0; i < n; i++ {
		k := sym.Choose("key", len(bound)+2)
		switch {
		case k < len(bound):
			keys = append(keys, c32key(bound[k]))
			packet = packet != (bound[k] == gocui.KeyCtrlP)
		case k == len(bound):
			keys = append(keys, c32rune('7'))
		default:
			key := termbox.Key(sym.U16("key"))
			other := sym.And(key != termbox.KeyCtrlC, key != termbox.KeyBackspace, key != termbox.KeyDelete)
			for _, b := range bound {
				other = sym.And(other, key != termbox.Key(b))
			}
			sym.Assume(other)
			keys = append(keys, termbox.Event{Type: termbox.EventKey, Key: key})
		}
	}
	i, back, ran := 0, 0, 0
	c32run(func(g *gocui.Gui) (termbox.Event, bool) {
		if i == 0 {
			for j := 0; j < lines; j++ {
				MsgPrintln(g, "green_black", "message")
				ErrPrintln(g, "red_black", "error")
			}
			sym.WaitIdle()
		}
		if i < len(keys) {
			i++
			return keys[i-1], true
		}
		if g.CurrentView().Name() != "cmd" || back == 0 {
			sym.Assert(back < 5, "ctrl-space comes back to the command window")
			if back++; back > 5 {
				return termbox.Event{}, false
			}
			return c32key(gocui.KeyCtrlSpace), true
		}
		v := g.CurrentView()
		for j, l := range v.BufferLines() {
			sym.Assert(strings.HasPrefix(l, "saratoga["+strconv.Itoa(j)+"]:"), "the prompts stay")
		}
		i++
		switch {
		case packet: // the cursor may be on another line
		case i == len(keys)+1:
			ran = len(Cinfo.Commands)
			return c32rune('5'), true
		case i == len(keys)+2:
			return c32key(gocui.KeyEnter), true
		default:
			sym.Assert(len(Cinfo.Commands) == ran+1, "each line entered is run once")
			c32at(g, Cinfo.Curline)
			sym.Cover("back")
		}
		return termbox.Event{}, false
	})
	sym.Cover("ran")
}

// The window's size changes.
func Verif_C32_size() {
	sym.Bound("any change of the terminal from 80 x 24 to 0..1000 columns and rows, and back; a key before and after")
	x, y := int(sym.Range("columns", 0, 1000)), int(sym.Range("rows", 0, 1000))
	i := 0
	c32run(func(g *gocui.Gui) (termbox.Event, bool) {
		i++
		switch i {
		case 1, 3, 5:
			return c32rune('7'), true
		case 2:
			term.X, term.Y = x, y
			return termbox.Event{Type: termbox.EventResize, Width: x, Height: y}, true
		case 4:
			term.X, term.Y = 80, 24
			return termbox.Event{Type: termbox.EventResize, Width: 80, Height: 24}, true
		case 6:
			return c32key(gocui.KeyEnter), true
		}
		return termbox.Event{}, false
	})
	if sym.Or(x < 34, y < 16) {
		return // the prompt and what is typed do not fit on a row
	}
	sym.Assert(len(Cinfo.Commands) == 1 && Cinfo.Commands[0] == "777", "what is run is what was typed")
	sym.Cover("ran")
}

// Typing and taking back where a command goes on to the next row.
func Verif_C32_wrap() {
	sym.Bound("terminals of 80 columns; 24..28 or 62..66 bytes, then 5 keys each a digit of any value or backspace, and enter; then one digit and enter")
	var text []byte
	var keys []termbox.Event
	for n := 24 + 38*sym.Choose("rows", 2) + sym.Choose("length", 5); n > 0; n-- {
		text = append(text, '3')
		keys = append(keys, c32rune('3'))
	}
	for i := 0; i < 5; i++ {
		if sym.Bool("take back") {
			keys = append(keys, c32key(gocui.KeyBackspace2))
			text = text[:len(text)-1]
		} else {
			c := byte(sym.Range("digit", '0', '9'))
			keys = append(keys, c32rune(rune(c)))
			text = append(text, c)
		}
	}
	keys = append(keys, c32key(gocui.KeyEnter), c32rune('4'), c32key(gocui.KeyEnter))
	i := 0
	g := c32run(func(*gocui.Gui) (termbox.Event, bool) {
		if i == len(keys) {
			return termbox.Event{}, false
		}
		i++
		return keys[i-1], true
	})
	sym.Assert(len(Cinfo.Commands) == 2, "each line entered is run once")
	if len(Cinfo.Commands) == 2 {
		sym.Assert(sym.EqStr(Cinfo.Commands[0], string(text)), "what is run is what was typed")
		sym.Assert(Cinfo.Commands[1] == "4", "what is run is what was typed")
	}
	c32at(g, 2)
	sym.Cover("ran")
}
