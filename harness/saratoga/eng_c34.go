package main

import (
	"errors"
	"os"
	"strings"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/zzverif/stub"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/term"
	"github.com/jroimartin/gocui"
	"github.com/nsf/termbox-go"
)

// c34main runs the node with the real gocui until it ends, and says with which status (-1: it goes on).
func c34main(args []string, done func(status int)) {
	term.Use()
	stub.SetStatfs(4096, 1<<30)
	term.X, term.Y = 48, 24
	os.Args = args
	sym.OnExit(func(status int) {
		sym.Assert(stub.Term == 0, "the terminal is given back")
		done(status)
		sym.AllowExit(true)
	})
	go func() {
		main()
		sym.Assert(stub.Term == 0, "the terminal is given back")
		done(0)
		sym.AllowExit(true)
		os.Exit(0)
	}()
	<-make(chan bool)
}

func c34args() (dir string, args []string) {
	dir = sarflags.Cliflag.Sardir // of the configuration
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	wd, _ := os.Getwd()
	return dir, []string{"saratoga", wd + "/saratoga.json", "eth0"}
}

// The node ends when that is asked for, with the status asked for, and not otherwise.
func Verif_C34_exit() {
	sym.Bound("exit or quit, with 0, 1, another digit, ? or a letter, or nothing, after it, blanks before, between and after; after up to one other command; or ctrl-C")
	_, args := c34args()
	want := -1
	var keys []termbox.Event
	typed := func(line string) {
		for _, c := range line {
			k := termbox.Event{Type: termbox.EventKey, Ch: c}
			if c == ' ' {
				k = termbox.Event{Type: termbox.EventKey, Key: termbox.KeySpace}
			}
			keys = append(keys, k)
		}
		keys = append(keys, termbox.Event{Type: termbox.EventKey, Key: termbox.KeyEnter})
	}
	if k := sym.Choose("before", 4); k > 0 {
		typed([]string{"peers", "exit ?", "quit now"}[k-1])
	}
	ctrlc := sym.Choose("how", 3)
	if ctrlc == 2 {
		keys = append(keys, termbox.Event{Type: termbox.EventKey, Key: termbox.Key(gocui.KeyCtrlC)})
	} else {
		a := sym.Choose("arg", 3)
		line := []string{"exit", "quit"}[ctrlc]
		sp := strings.Repeat(" ", sym.Choose("blanks", 2))
		switch a {
		case 0:
			want = 0
		case 1:
			c := byte(sym.Range("digit", '0', '9'))
			line += " " + sp + string([]byte{c})
			if c == '0' {
				want = 0
			} else if c == '1' {
				want = 1
			}
		case 2:
			c := byte(sym.Range("letter", 'a', 'z'))
			line += sp + " " + string([]byte{c})
		}
		typed(sp + line + sp)
	}
	i := 0
	term.Events = func() (termbox.Event, bool) {
		if i < len(keys) {
			i++
			return keys[i-1], true
		}
		sym.Assert(want == -1 && ctrlc != 2, "the node ends when that is asked for")
		sym.Cover("goes on")
		sym.AllowExit(true)
		stub.Term = 0
		os.Exit(0)
		return termbox.Event{}, false
	}
	c34main(args, func(status int) {
		if i == len(keys) && want == -1 && ctrlc != 2 {
			return // from the terminal above
		}
		sym.Assert(i == len(keys), "the node ends only when that is asked for")
		sym.Assert(ctrlc == 2 || status == want, "the node ends with the status asked for")
		sym.Cover("ended")
	})
}

// A node that cannot work does not start.
func Verif_C34_start() {
	sym.Bound("a number of arguments that is not two, a configuration that is not there or not one, an interface or a directory that there is not or that is a file, no terminal, no address to listen on; or all there")
	dir, args := c34args()
	k := sym.Choose("missing", 10)
	switch k {
	case 0:
		n := sym.Choose("args", 5)
		sym.Assume(n != 3)
		args = append(args, "x", "y")[:n]
	case 1:
		args[1] += "x"
	case 2:
		args[1] = dir + "/c.json"
		if err := os.WriteFile(args[1], []byte("{ \"commands\": 7"), 0644); err != nil {
			panic(err)
		}
	case 3:
		args[2] = "eth7"
	case 4:
		if err := os.RemoveAll(dir); err != nil {
			panic(err)
		}
	case 5:
		stub.TermError = errors.New("no terminal")
	case 6:
		stub.ListenError = "udp4"
	case 7:
		stub.ListenError = "udp6"
	case 9:
		if os.RemoveAll(dir) != nil || os.WriteFile(dir, []byte("x"), 0644) != nil {
			panic("setup")
		}
	}
	term.Events = func() (termbox.Event, bool) {
		sym.Assert(k == 8, "a node that cannot work does not start")
		sym.Cover("started")
		sym.Assert(stub.Term == 1, "the node has the terminal")
		wd, _ := os.Getwd()
		sym.Assert(wd == dir, "the node is in the configured directory")
		sym.AllowExit(true)
		stub.Term = 0
		os.Exit(0)
		return termbox.Event{}, false
	}
	c34main(args, func(status int) {
		sym.Assert(k < 3 || k == 8 || status != 0, "a node that cannot start ends with an error")
		sym.Cover("ended")
	})
}
