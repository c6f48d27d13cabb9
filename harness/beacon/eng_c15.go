package beacon

import "github.com/charlesetsmith/saratoga/zzverif/sym"

func Verif_C15_concurrent() {
	sym.Bound("two beacons handled at the same time, from one address or two, the table empty or holding one of them; every interleaving with up to 2 (thorough: 3) preemptions at accesses to shared memory")
	Peers = nil
	var want []c15peer
	pre := sym.Choose("known", 2) == 1
	first := func(f string, n int) int { return 0 }
	if pre {
		b, w := c15beacon("b0", 1, first)
		from, addr := c15from(0)
		w.addr = addr
		want, _ = c15step(want, w)
		NewPeer(b, from)
	}
	b1, w1 := c15beacon("b1", 1, first)
	b2, w2 := c15beacon("b2", 1, func(f string, n int) int { return 3 })
	f1, a1 := c15from(0)
	f2, a2 := c15from(sym.Choose("from", 2))
	w1.addr, w2.addr = a1, a2
	n := 2
	if sym.Thorough() {
		n = 3
	}
	var r1, r2 bool
	done := make(chan bool, 2)
	sym.Preempt(n)
	go func() { r1 = NewPeer(b1, f1); done <- true }()
	go func() { r2 = NewPeer(b2, f2); done <- true }()
	<-done
	<-done
	sym.Preempt(0)
	if a1 != a2 {
		want, _ = c15step(want, w1)
		want, _ = c15step(want, w2)
		c15table(want)
		sym.Assert(r2, "a new peer is news")
		sym.Cover("two addresses")
		return
	}
	sym.Assert(len(Peers) == 1, "the table has one entry per address that sent a beacon")
	if len(Peers) == 1 {
		one, two := c15is(&Peers[0], w1), c15is(&Peers[0], w2)
		sym.Assert(one || two, "an entry holds what one beacon says, not a mixture")
	}
	if !pre {
		sym.Assert(r1 && r2, "both beacons are news: they differ")
	}
	sym.Cover("one address")
}
