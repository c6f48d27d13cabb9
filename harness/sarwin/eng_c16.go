package sarwin

import (
	"net"
	"os"
	"syscall"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/zzverif/stub"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/jroimartin/gocui"
)

func Verif_C16_concurrent() {
	sym.Bound("two commands starting a transfer at the same time, each a delete or a put of one of two files to one of two peers, with none or one in progress before; every interleaving with up to 2 (thorough: 3) preemptions at accesses to shared memory")
	sardir()
	Transfers = nil
	w := &c16world{have: []string{"a", "b"}}
	if sym.Choose("before", 2) == 1 {
		types := c16types
		c16types = []string{"delete"}
		p, ps := c16peer(0)
		t, err := NewInitiator(new(gocui.Gui), "delete", p, "a", sarflags.Cliflag)
		sym.Assert(err == nil, "a transfer that can be started is started")
		w.want = append(w.want, c16tran{"delete", ps, "a", t.Session})
		c16types = types
	}
	g := new(gocui.Gui)
	type job struct {
		tt, ps, name string
		t            *Transfer
		err          error
	}
	var js [2]job
	for i, tag := range []string{"t1", "t2"} {
		js[i].tt = []string{"delete", "put"}[sym.Choose(tag+".type", 2)]
		_, js[i].ps = c16peer(sym.Choose(tag+".peer", 2))
		js[i].name = []string{"a", "b"}[sym.Choose(tag+".name", 2)]
		if i == 0 {
			// the two are alike up to exchanging the names and the peers
			sym.Assume(js[i].name == "a")
		}
	}
	done := make(chan bool, 2)
	n := 2
	if sym.Thorough() {
		n = 3
	}
	sym.Preempt(n)
	for i := range js {
		j := &js[i]
		go func() {
			p := vaddr(7542)
			if j.ps != "127.0.0.1:7542" {
				p = vaddr(17542)
			}
			j.t, j.err = NewInitiator(g, j.tt, p, j.name, sarflags.Cliflag)
			done <- true
		}()
	}
	<-done
	<-done
	sym.Preempt(0)
	similar := js[0].ps == js[1].ps && js[0].name == js[1].name
	for i := range js {
		j := &js[i]
		if j.err == nil {
			w.want = append(w.want, c16tran{j.tt, j.ps, j.name, j.t.Session})
		} else {
			old := false
			for _, o := range w.want[:min(1, len(w.want))] {
				old = old || o.ps(j.ps) && o.name == j.name
			}
			sym.Assert(similar || old, "a transfer that can be started is started")
		}
	}
	w.check()
	sym.Cover("both done")
}

func Verif_C16_faults() {
	sym.Bound("one transfer in progress or none; a second started, of any of seven types (one unknown), of one of three files to one of two peers, where any one of the first six operations on the local files fails, or the file appears or disappears just before it")
	sardir()
	Transfers = nil
	g := new(gocui.Gui)
	w := &c16world{have: []string{"a", "b"}}
	if sym.Choose("before", 2) == 1 {
		p, ps := c16peer(0)
		t, err := NewInitiator(g, "delete", p, "a", sarflags.Cliflag)
		sym.Assert(err == nil, "a transfer that can be started is started")
		w.want = append(w.want, c16tran{"delete", ps, "a", t.Session})
	}
	tt := c16types[sym.Choose("type", len(c16types))]
	p, ps := c16peer(sym.Choose("peer", 2))
	name := []string{"a", "b", "n"}[sym.Choose("name", 3)]
	at, what, n := sym.Choose("at", 6), sym.Choose("what", 2), 0
	wd := sarflags.Cliflag.Sardir
	stub.Before = func(op, path string) error {
		n++
		if n != at+1 {
			return nil
		}
		if what == 0 {
			sym.Cover("an operation fails")
			return syscall.EIO
		}
		stub.Before = nil
		if os.Remove(wd+"/"+name) != nil {
			os.WriteFile(wd+"/"+name, []byte("another"), 0644)
		}
		sym.Cover("the file comes or goes")
		return nil
	}
	t, err := NewInitiator(g, tt, p, name, sarflags.Cliflag)
	stub.Before = nil
	if err == nil {
		w.want = append(w.want, c16tran{tt, ps, name, t.Session})
		sym.Cover("started")
	} else {
		sym.Cover("refused")
	}
	w.check()
	// the next command is carried out
	p, ps = c16peer(1)
	t, err = NewInitiator(g, "delete", p, "z", sarflags.Cliflag)
	sym.Assert(err == nil, "a transfer that can be started is started")
	if err == nil {
		w.want = append(w.want, c16tran{"delete", ps, "z", t.Session})
	}
	w.check()
}

func (t c16tran) ps(s string) bool { return t.peer == s }

func Verif_C16_long() {
	n := 66000
	if sym.Thorough() {
		n = 200000
	}
	sym.Bound("66000 (thorough: 200000) transfers started and ended one after the other while the first and the 1000th go on, by a process of any number up to 2^22")
	sym.Steps(1 << 40)
	stub.Pid = int(sym.Range("pid", 1, 1<<22))
	sardir()
	Transfers = nil
	g := c18gui()
	peer := &net.UDPAddr{IP: net.IP{10, 0, 0, 7}, Port: 7542}
	var kept []uint32
	for i := 0; i < n; i++ {
		name := "f"
		if i == 0 || i == 1000 {
			name = "kept" + string(rune('0'+len(kept)))
		}
		t, err := NewInitiator(g, "delete", peer, name, sarflags.Cliflag)
		if err != nil {
			sym.Fail("a transfer is started")
			return
		}
		for _, s := range kept {
			sym.Assert(t.Session != s, "the session of a transfer in progress is not given to another")
		}
		if name != "f" {
			kept = append(kept, t.Session)
		} else if t.Remove() != nil {
			sym.Fail("a transfer is removed")
			return
		}
	}
	sym.Cover("started")
}
