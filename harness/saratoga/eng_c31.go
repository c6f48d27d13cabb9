package main

import (
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/jroimartin/gocui"

	"github.com/charlesetsmith/saratoga/sarwin"
	"github.com/charlesetsmith/saratoga/zzverif/stub"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

var c31lines = []string{
	"beacon 10.0.0.7", "beacon off", "beacon v4 1", "bcount 7", "cancel 1", "checksum md5", "descriptor d32", "files", "freespace no", "get 10.0.0.7 x",
	"help", "history", "home", "interval 9", "ls", "peers", "put 10.0.0.7 f", "putblind 10.0.0.7 f", "reqtstamp no", "rmtran delete 10.0.0.7:7542 4712",
	"rxwilling off", "stream yes", "take 10.0.0.7 x", "timeout status 9", "timestamp 32", "timezone utc", "tran", "txwilling capable", "usage",
	"delete 10.0.0.7 f2", "getdir 10.0.0.7 x", "give 10.0.0.7 f", "clear",
}

func c31frame(i int) []byte {
	switch i {
	case 0:
		b := vh.Be(nil, uint64(c25hdr("frametype", "beacon", "rxwilling", "yes", "txwilling", "no")), 4)
		return append(b, "node-9"...)
	case 1:
		r := vh.Be(nil, uint64(c25hdr("frametype", "request", "reqtype", "put", "rxwilling", "yes", "txwilling", "yes")), 4)
		r = vh.Be(r, 77, 4)
		return append(r, 'z', 0)
	case 2:
		r := vh.Be(nil, uint64(c25hdr("frametype", "request", "reqtype", "get", "rxwilling", "yes", "txwilling", "yes")), 4)
		r = vh.Be(r, 78, 4)
		return append(r, 'f', 0)
	case 3:
		d := vh.Be(nil, uint64(c25hdr("frametype", "data", "transfer", "file")), 4)
		d = vh.Be(vh.Be(d, 77, 4), 0, 2)
		return append(d, "payload"...)
	case 4:
		t := vh.Be(nil, uint64(c25hdr("frametype", "status", "allholes", "no")), 4)
		t = vh.Be(vh.Be(vh.Be(t, 4712, 4), 9, 2), 9, 2)
		return vh.Be(vh.Be(t, 1, 2), 3, 2)
	case 5:
		return c31meta
	}
	return vh.Be(nil, 0, 8) // of another version
}

var c31meta []byte

// c31metadata is a metadata frame for the file f.
func c31metadata() []byte {
	var m metadata.MetaData
	if err := m.New("descriptor=d32,transfer=file,progress=inprogress,csumtype=none", &metadata.Minfo{Session: 77, Fname: "f"}); err != nil {
		panic(err)
	}
	b, err := m.Encode()
	if err != nil {
		panic(err)
	}
	return b
}

const c31frames = 7

// c31term: what is printed is printed at some later time.
func c31term() *gocui.Gui {
	g := stub.Gui
	for _, v := range []string{"cmd", "err", "packet", "msg"} {
		g.SetView(v, 0, 0, 10, 5)
	}
	if _, err := g.SetCurrentView("cmd"); err != nil {
		panic(err)
	}
	stub.RunDetached = true
	return g
}

func c31type(g *gocui.Gui, line string) {
	v, err := g.View("cmd")
	if err != nil {
		panic(err)
	}
	stub.ViewLine = "saratoga[0]:" + line
	sarwin.GetLine(g, v)
}

func c31do(g *gocui.Gui, n string) {
	i := sym.Choose(n, len(c31lines)+c31frames)
	if i < len(c31lines) {
		c31type(g, c31lines[i])
		return
	}
	v := sym.Choose(n+"socket", 2)
	c25in(v, c25addr(v, 7), c31frame(i-len(c31lines)))
}

func Verif_C31_two() {
	sym.Bound("two events (thorough: three, the last of 7) at the same time, each one of 34 command lines or one of 7 frames on either socket; with no transfer and no peer before, or one transfer and one peer; the order of the synchronisation that the two give")
	sym.Clock(1700000000)
	stub.SetStatfs(4096, 1<<30)
	c25node()
	g := c31term()
	c31meta = c31metadata()
	if sym.Choose("before", 2) == 1 {
		c31type(g, "delete 10.0.0.7 f")
		c25in(0, c25addr(0, 7), c31frame(0))
		sym.WaitIdle()
	}
	sym.Races(true)
	c31do(g, "first")
	c31do(g, "second")
	if sym.Thorough() {
		if k := sym.Choose("third", 7); k < 6 {
			c31type(g, []string{"peers", "files", "put 10.0.0.7 f", "freespace no", "rmtran delete 10.0.0.7:7542 4712", "beacon 10.0.0.7"}[k])
		} else {
			c25in(1, c25addr(1, 8), c31frame(0))
		}
	}
	sym.WaitIdle()
	sym.Cover("both done")
}
