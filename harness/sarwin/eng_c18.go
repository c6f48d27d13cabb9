package sarwin

import (
	"errors"
	"net"
	"strings"
	"time"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/zzverif/stub"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
)

// The line is that of the view, as the terminal library gives it.
func Verif_C18_getline() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	sym.Bound("any line under the cursor of 0 to 3 (thorough: 4) bytes, with or without a prompt, or the prompt and a setting command, or none; what is printed is formatted")
	stub.RunUpdates = true
	c18before(1, "")
	g := c18gui()
	v, err := g.View("cmd")
	if err != nil {
		panic(err)
	}
	line := ""
	switch sym.Choose("kind", 4) {
	case 0:
		line = sym.String("line", sym.Choose("len", n+1))
	case 1:
		line = "saratoga[0]:" + sym.String("line", sym.Choose("len", n+1))
	case 2:
		line = "saratoga[0]:checksum sha1"
	case 3:
		stub.ViewLineError = errors.New("invalid point")
	}
	stub.ViewLine = line
	cmd := ""
	for i := 0; i < len(line); i++ {
		if line[i] == ':' {
			cmd = line[i+1:]
			break
		}
	}
	s := c18snap()
	before := len(Cinfo.Commands)
	r := GetLine(g, v)
	sym.WaitIdle()
	sym.Assert(r == nil, "a line typed does not end the node")
	want, _ := c18want(strings.Fields(cmd), s)
	sym.Assert(c18same(c18snap(), want), "a line typed does what its command does")
	if cmd == "" {
		sym.Assert(len(Cinfo.Commands) == before, "only commands are in the history")
	} else {
		sym.Cover("command")
		sym.Assert(len(Cinfo.Commands) == before+1 && sym.EqStr(Cinfo.Commands[before], cmd), "a command is kept in the history")
	}
	stub.ViewLine, stub.ViewLineError = "saratoga[0]:bcount 41", nil
	GetLine(g, v)
	sym.WaitIdle()
	sym.Assert(sarflags.Cliflag.Bcount == 41, "the next command still works")
}

// The commands with what they print formatted.
func Verif_C18_printed() {
	sym.Bound("each of the 34 commands, and a word that is none, with no argument, a question mark or a file name, with what it prints formatted; with no transfer and no peer, or one transfer and two peers")
	stub.RunUpdates = true
	sardir()
	w := c18words[sym.Choose("word", len(c18words))]
	c18before(sym.Choose("before", 2), w)
	Transfers = nil
	g := c18gui()
	if sym.Choose("transfer", 2) == 1 {
		if _, err := NewInitiator(g, "delete", vaddr(7542), "a", sarflags.Cliflag); err != nil {
			sym.Fail("a transfer that can be started is started")
		}
		for _, from := range []*net.UDPAddr{{IP: net.IP{10, 0, 0, 7}, Port: 7542}, {IP: net.ParseIP("fe80::7"), Port: 7542, Zone: "eth0"}} {
			var b beacon.Beacon
			err := b.New("descriptor=d32,stream=yes,txwilling=yes,rxwilling=no,udplite=no,freespace=yes,freespaced=d32", &beacon.Binfo{Freespace: 5, Eid: "e"})
			sym.Assert(err == nil, "a beacon is built")
			beacon.NewPeer(&b, from)
			p := &beacon.Peers[len(beacon.Peers)-1]
			p.Created.New("posix32", time.Unix(1000000000, 0))
			p.Updated.New("posix32", time.Unix(1000000001, 0))
		}
	}
	v := []string{w}
	if a := []string{"", "?", "f"}[sym.Choose("arg", 3)]; a != "" {
		v = append(v, a)
	}
	c18run(g, strings.Join(v, " "), v)
}
