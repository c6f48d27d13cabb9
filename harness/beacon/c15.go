package beacon

import (
	"net"
	"time"

	"github.com/charlesetsmith/saratoga/timestamp"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

// What the table should say of one beacon's sender.
type c15peer struct {
	addr         string
	free         uint64
	eid          string
	desc, rx, tx string
}

var c15names = []string{"descriptor", "rxwilling", "txwilling"}

// Five senders: two ports of one host, a host whose address extends another's
// text, an IPv6 host, and the first host in its IPv6-mapped form.
func c15from(k int) (*net.UDPAddr, string) {
	switch k {
	case 0:
		return &net.UDPAddr{IP: net.IP{10, 0, 0, 1}, Port: 7542}, "10.0.0.1"
	case 1:
		return &net.UDPAddr{IP: net.IP{10, 0, 0, 12}, Port: 7542}, "10.0.0.12"
	case 2:
		return &net.UDPAddr{IP: net.IP{10, 0, 0, 1}, Port: 40000}, "10.0.0.1"
	case 3:
		return &net.UDPAddr{IP: net.IP{0xfe, 0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, Port: 7542, Zone: "eth0"}, "fe80::1"
	}
	return &net.UDPAddr{IP: net.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 10, 0, 0, 1}, Port: 7542}, "10.0.0.1"
}

// c15beacon: a beacon with any free space, an identifier of eid bytes and any
// header with the three fields the table keeps picked by pick.
func c15beacon(tag string, eid int, pick func(f string, n int) int) (*Beacon, c15peer) {
	h := sym.U32(tag + ".header")
	var o [3]string
	for i, n := range c15names {
		f := vh.FieldNamed(n)
		o[i] = f.Opts[pick(n, len(f.Opts))].Name
		h = vh.HSet(h, n, o[i])
	}
	b := &Beacon{Header: h, Freespace: sym.U64(tag + ".freespace"), Eid: sym.String(tag+".eid", eid)}
	return b, c15peer{"", b.Freespace, b.Eid, o[0], o[1], o[2]}
}

func c15is(p *Peer, w c15peer) bool {
	return p.Addr == w.addr && sym.And(p.Freespace == w.free, sym.EqStr(p.Eid, w.eid)) &&
		p.Maxdesc == w.desc && p.Canrx == w.rx && p.Cantx == w.tx
}

func c15table(want []c15peer) {
	sym.Assert(len(Peers) == len(want), "the table has one entry per address that sent a beacon")
	for _, w := range want {
		n := 0
		ok := false
		for i := range Peers {
			if Peers[i].Addr == w.addr {
				n++
				ok = c15is(&Peers[i], w)
			}
		}
		sym.Assert(n == 1, "every address that sent a beacon has one entry")
		sym.Assert(ok, "an entry holds what its address's latest beacon says")
	}
}

// c15step: the table after one more beacon, and whether that was news.
func c15step(want []c15peer, w c15peer) ([]c15peer, bool) {
	for i := range want {
		if want[i].addr == w.addr {
			same := sym.And(want[i].free == w.free, sym.EqStr(want[i].eid, w.eid),
				want[i].desc == w.desc, want[i].rx == w.rx, want[i].tx == w.tx)
			want[i] = w
			return want, sym.Not(same)
		}
	}
	return append(want, w), true
}

func Verif_C15_two() {
	sym.Bound("two beacons with any header (of the three fields the table keeps, any one varies over all options and another over two; thorough: all over all) and free space and an identifier of 0 or 1 bytes, from five kinds of sender addresses")
	which := 3
	if !sym.Thorough() {
		which = sym.Choose("field", 3)
	}
	Peers = nil
	var want []c15peer
	for _, tag := range []string{"b1", "b2"} {
		b, w := c15beacon(tag, sym.Choose(tag+".eidlen", 2), func(f string, n int) int {
			if which < 3 && f != c15names[which] {
				if f == c15names[(which+1)%3] {
					return 2 * sym.Choose(tag+"."+f, 2)
				}
				return 1
			}
			return sym.Choose(tag+"."+f, n)
		})
		from, addr := c15from(sym.Choose(tag+".from", 5))
		w.addr = addr
		var news bool
		want, news = c15step(want, w)
		got := NewPeer(b, from)
		sym.Assert(got == news, "a beacon is news exactly when the sender is new or says something else than before")
		c15table(want)
	}
	if len(want) == 1 {
		sym.Cover("one peer")
	} else {
		sym.Cover("two peers")
	}
}

func Verif_C15_history() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	sym.Bound("4 (thorough: 5) beacons with any free space and one-byte identifier, one field of the header of each changing, from three addresses in any order")
	Peers = nil
	var want []c15peer
	for k := 0; k < n; k++ {
		tag := "b" + string(rune('0'+k))
		which := k % 3
		b, w := c15beacon(tag, 1, func(f string, n int) int {
			if f == c15names[which] {
				return sym.Choose(tag+"."+f, 2) * 3
			}
			return 0
		})
		from, addr := c15from([]int{0, 1, 3}[sym.Choose(tag+".from", 3)])
		w.addr = addr
		var news bool
		want, news = c15step(want, w)
		got := NewPeer(b, from)
		sym.Assert(got == news, "a beacon is news exactly when the sender is new or says something else than before")
		c15table(want)
	}
	if len(want) == 3 {
		sym.Cover("three peers")
	}
}

func Verif_C15_nobody() {
	sym.Bound("a beacon without a sender")
	Peers = nil
	sym.Assert(!NewPeer(&Beacon{Header: h0}, nil), "a beacon without a sender is no news")
	sym.Assert(len(Peers) == 0, "a beacon without a sender adds no peer")
	sym.Cover("nobody")
}

var c15ips = []net.IP{{10, 0, 0, 1}, {10, 0, 0, 12}, {10, 0, 0, 2}, {192, 168, 1, 1}, {10, 0, 1, 0}, {110, 0, 0, 1}, {10, 0, 0, 11}, {1, 0, 0, 1}, {10, 0, 0, 10}}

// Any one beacon and any table of peers.
func Verif_C15_step() {
	n := 5
	if sym.Thorough() {
		n = 8
	}
	sym.Bound("a table of up to 5 (thorough: 8) peers with any free space, one-byte identifier and different descriptors, willingness and times; one beacon with any header, free space and one-byte identifier from one of them or another address")
	sym.Clock(1700000000)
	k := sym.Choose("peers", n+1)
	Peers = nil
	var want []c15peer
	var made, upd []timestamp.Timestamp
	for i := 0; i < k; i++ {
		tag := "p" + string(rune('0'+i))
		p := Peer{Addr: c15ips[i].String(), Freespace: sym.U64(tag + ".freespace"), Eid: sym.String(tag+".eid", 1)}
		d, r, t := vh.FieldNamed("descriptor").Opts, vh.FieldNamed("rxwilling").Opts, vh.FieldNamed("txwilling").Opts
		p.Maxdesc, p.Canrx, p.Cantx = d[i%len(d)].Name, r[(i+1)%len(r)].Name, t[(i+3)%len(t)].Name
		if p.Created.New("posix32_32", time.Unix(1600000000+int64(i), 5)) != nil || p.Updated.New("posix32_32", time.Unix(1600001000+int64(i), 7)) != nil {
			panic("timestamp")
		}
		Peers = append(Peers, p)
		want = append(want, c15peer{p.Addr, p.Freespace, p.Eid, p.Maxdesc, p.Canrx, p.Cantx})
		made, upd = append(made, p.Created), append(upd, p.Updated)
	}
	b, w := c15beacon("b", 1, func(f string, n int) int { return sym.Choose("b."+f, n) })
	from := sym.Choose("from", k+1)
	w.addr = c15ips[from].String()
	var from0, to0 timestamp.Timestamp
	if from0.Now("posix32_32") != nil {
		panic("timestamp")
	}
	var news bool
	want, news = c15step(want, w)
	got := NewPeer(b, &net.UDPAddr{IP: c15ips[from], Port: 7542})
	if to0.Now("posix32_32") != nil {
		panic("timestamp")
	}
	now := func(t *timestamp.Timestamp) bool { return sym.And(t.Secs() >= from0.Secs(), t.Secs() <= to0.Secs()) }
	sym.Assert(got == news, "a beacon is news exactly when the sender is new or says something else than before")
	c15table(want)
	for i := range Peers {
		p := &Peers[i]
		for j := range want {
			if want[j].addr != p.Addr {
				continue
			}
			if j >= k {
				sym.Assert(sym.And(now(&p.Created), vh.SameTstamp(&p.Updated, &p.Created)), "a new peer was first and last heard now")
				sym.Cover("new peer")
				continue
			}
			sym.Assert(vh.SameTstamp(&p.Created, &made[j]), "a peer keeps the time it was first heard")
			if j != from {
				sym.Assert(vh.SameTstamp(&p.Updated, &upd[j]), "a peer keeps the time it last changed")
			} else if got {
				sym.Assert(now(&p.Updated), "a peer that changed did so now")
				sym.Cover("changed")
			} else {
				sym.Cover("unchanged")
			}
		}
	}
}
