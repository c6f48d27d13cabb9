package sarwin

import (
	"net"
	"strconv"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/jroimartin/gocui"
)

func Verif_C17_concurrent() {
	sym.Bound("a table of three transfers; two commands at the same time, each removing one of them or one that is not there, or starting one, or listing them; every interleaving with up to 2 (thorough: 3) preemptions at accesses to shared memory")
	sardir()
	Transfers = nil
	for i := 0; i < 3; i++ {
		Transfers = append(Transfers, Transfer{Direction: Initiator, Session: uint32(11 + i), Ttype: "delete", Filename: "f" + strconv.Itoa(i), Peer: &net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: 7542}})
	}
	g := new(gocui.Gui)
	here := map[uint32]bool{11: true, 12: true, 13: true}
	starts := 0
	var job [2]func()
	for i, tag := range []string{"t1", "t2"} {
		k := sym.Choose(tag, 6)
		switch k {
		case 4:
			starts++
			name := "new" + strconv.Itoa(i)
			job[i] = func() { NewInitiator(g, "delete", vaddr(7542), name, sarflags.Cliflag) }
		case 5:
			job[i] = func() { cmdFiles(g, []string{"files"}) }
		default:
			s := 11 + k
			delete(here, uint32(s))
			job[i] = func() { cmdRmtran(g, []string{"rmtran", "delete", "127.0.0.1:7542", strconv.Itoa(s)}) }
		}
	}
	done := make(chan bool, 2)
	n := 2
	if sym.Thorough() {
		n = 3
	}
	sym.Preempt(n)
	for i := range job {
		f := job[i]
		go func() {
			f()
			done <- true
		}()
	}
	<-done
	<-done
	sym.Preempt(0)
	last := uint32(0)
	n = 0
	for i := range Transfers {
		t := &Transfers[i]
		if len(t.Filename) > 2 {
			starts--
			continue
		}
		n++
		sym.Assert(here[t.Session], "a transfer that was removed is not there")
		sym.Assert(t.Session > last, "the others stay in place and in order")
		last = t.Session
	}
	sym.Assert(n == len(here), "removing a transfer removes that one only")
	sym.Assert(starts == 0, "a transfer that was started is there")
	sym.Cover("both done")
}
