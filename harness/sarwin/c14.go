package sarwin

import (
	"encoding/binary"
	"net"

	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
	"github.com/jroimartin/gocui"
)

func c14num(b []byte) uint64 {
	switch len(b) {
	case 2:
		return uint64(binary.BigEndian.Uint16(b))
	case 4:
		return uint64(binary.BigEndian.Uint32(b))
	}
	return binary.BigEndian.Uint64(b)
}

// c14report: the transfer t has up to max pieces of its data; it reports with
// the flags given and room for room holes in a frame.
func c14report(desc, max, rooms int, flags func() (string, func(uint32) uint32, bool), slack func(hsize int) int) {
	l, err := net.ListenUDP("udp", vaddr(0))
	if err != nil {
		panic(err)
	}
	defer l.Close()
	peer := l.LocalAddr().(*net.UDPAddr)
	c, err := net.DialUDP("udp", nil, peer)
	if err != nil {
		panic(err)
	}
	defer c.Close()

	ds := vh.DescSize(desc)
	t := &Transfer{Direction: Responder, Session: sym.U32("session"), Conn: c, Peer: peer,
		Progress: sym.U64("progress"), Inrespto: sym.U64("inrespto")}
	sym.Assume(sym.And(vh.Fits(uint32(desc), t.Progress), vh.Fits(uint32(desc), t.Inrespto)))
	n := sym.Choose("pieces", max+1)
	var want []uint64
	last := uint64(0)
	for i := 0; i < n; i++ {
		start, end := sym.U64("start."+string(rune('0'+i))), sym.U64("end."+string(rune('0'+i)))
		if i == 0 {
			if sym.Choose("fromstart", 2) == 1 {
				sym.Assume(start == 0)
			} else {
				sym.Assume(start > 0)
				want = append(want, 0, start)
			}
		} else {
			sym.Assume(start > last)
			want = append(want, last, start)
		}
		sym.Assume(sym.And(end > start, end < 1<<62, vh.Fits(uint32(desc), end)))
		t.Curfills = append(t.Curfills, holes.Hole{Start: int(start), End: int(end)})
		last = end
	}

	fl, set, ts := flags()
	head := 8 + 2*ds
	if ts {
		head += 16
	}
	room := 1 + sym.Choose("room", rooms)
	mtu := 68 + head + room*2*ds + slack(2*ds)
	old := sarflags.Mtu()
	sarflags.MtuSet(mtu)
	defer sarflags.MtuSet(old)

	r := t.WriteStatus(new(gocui.Gui), fl)
	sym.Assert(r == "success", "a status that can be sent is sent")
	fs := vh.Drain(l)
	sym.Assert(len(fs) > 0, "a status is sent even when there are no holes")
	got := 0
	for _, f := range fs {
		sym.Assert(len(f) <= mtu-68, "every status frame fits the path MTU")
		if len(f) < head || (len(f)-head)%(2*ds) != 0 {
			sym.Fail("a status frame holds its fields and whole holes")
			return
		}
		sym.Assert(len(fs) == 1 || len(f) > head, "no more frames are sent than carry holes")
		h := vh.HSet(vh.HSet(vh.HSet(0, "version", "v1"), "frametype", "status"), "allholes", "yes")
		if len(fs) > 1 {
			h = vh.HSet(h, "allholes", "no")
		}
		sym.Assert(binary.BigEndian.Uint32(f[:4]) == set(h), "a status frame has the flags asked for and says whether it holds all holes")
		sym.Assert(binary.BigEndian.Uint32(f[4:8]) == t.Session, "a status frame has the transfer's session")
		sym.Assert(sym.And(c14num(f[head-2*ds:head-ds]) == t.Progress, c14num(f[head-ds:head]) == t.Inrespto), "a status frame has the transfer's progress and in-response-to")
		for p := head; p < len(f); p += ds {
			if got >= len(want) {
				sym.Fail("no hole is reported twice")
				return
			}
			sym.Assert(c14num(f[p:p+ds]) == want[got], "every hole is reported, once, in order")
			got++
		}
	}
	sym.Assert(got == len(want), "every hole is reported")
	sym.Assert(t.Curfills.Lenholes()*2 == len(want), "reporting changes no hole")
	if len(fs) > 1 {
		sym.Cover("several frames")
	}
	if len(want) == 0 {
		sym.Cover("no holes")
	}
}

func Verif_C14_holes() {
	sym.Bound("0 to 6 (thorough: 10) pieces received, at any offsets and of any lengths that fit the descriptor (16, 32 or 64 bits) and 62 bits, with any session, progress and in-response-to; path MTUs leaving room (after the longest IPv4 header, 60 bytes, and the UDP header) for 1 to 4 holes and 0, 1 or almost one hole's bytes more; with and without a timestamp")
	desc := sym.Choose("descriptor", 3)
	max := 6
	if sym.Thorough() {
		max = 10
	}
	ts := sym.Choose("timestamp", 2) == 1
	c14report(desc, max, 4, func() (string, func(uint32) uint32, bool) {
		d := vh.FieldNamed("descriptor").Opts[desc].Name
		fl := "descriptor=" + d + ",metadatarecvd=yes,allholes=no,reqholes=requested,errcode=success"
		if ts {
			fl += ",reqtstamp=yes"
		}
		return fl, func(h uint32) uint32 {
			h = vh.HSet(h, "descriptor", d)
			if ts {
				h = vh.HSet(h, "reqtstamp", "yes")
			}
			return h
		}, ts
	}, func(hsize int) int { return []int{0, 1, hsize - 1}[sym.Choose("slack", 3)] })
}

func Verif_C14_flags() {
	sym.Bound("0 to 3 pieces received; any option of the metadatarecvd and reqholes flags, allholes given as yes, as no or not at all, the descriptor and timestamp flags before or after the others, or no descriptor flag (then 16 bits); one or two holes fit a frame")
	desc := sym.Choose("descriptor", 4)
	ds := desc
	if desc == 3 {
		ds = 0
	}
	c14report(ds, 3, 2, func() (string, func(uint32) uint32, bool) {
		m := vh.FieldNamed("metadatarecvd").Opts[sym.Choose("metadatarecvd", 2)].Name
		r := vh.FieldNamed("reqholes").Opts[sym.Choose("reqholes", 2)].Name
		fl := "metadatarecvd=" + m + ",errcode=success" + []string{"", ",allholes=yes", ",allholes=no"}[sym.Choose("allholes", 3)] + ",reqholes=" + r
		ts := sym.Choose("timestamp", 3)
		d := ""
		if desc < 3 {
			d = "descriptor=" + vh.FieldNamed("descriptor").Opts[desc].Name
		}
		t := []string{"", "reqtstamp=yes", "reqtstamp=no"}[ts]
		if t != "" && d != "" {
			d += ","
		}
		d += t
		if d != "" {
			if sym.Choose("first", 2) == 1 {
				fl = d + "," + fl
			} else {
				fl += "," + d
			}
		}
		return fl, func(h uint32) uint32 {
			h = vh.HSet(vh.HSet(h, "metadatarecvd", m), "reqholes", r)
			if desc < 3 {
				h = vh.HSet(h, "descriptor", vh.FieldNamed("descriptor").Opts[desc].Name)
			}
			if ts == 1 {
				h = vh.HSet(h, "reqtstamp", "yes")
			}
			return h
		}, ts == 1
	}, func(int) int { return 0 })
}

func Verif_C14_refused() {
	sym.Bound("a report with 0 to 2 pieces received, any one malformed flag or a path MTU of 0 to 140 bytes: the report is sent whole and fits, or refused")
	l, err := net.ListenUDP("udp", vaddr(0))
	if err != nil {
		panic(err)
	}
	defer l.Close()
	peer := l.LocalAddr().(*net.UDPAddr)
	c, err := net.DialUDP("udp", nil, peer)
	if err != nil {
		panic(err)
	}
	defer c.Close()
	t := &Transfer{Direction: Responder, Session: 7, Conn: c, Peer: peer}
	n := sym.Choose("pieces", 3)
	for i := 0; i < n; i++ {
		t.Curfills = append(t.Curfills, holes.Hole{Start: 10 + 20*i, End: 20 + 20*i})
	}
	old := sarflags.Mtu()
	defer sarflags.MtuSet(old)
	mtu := 1500
	fl := "descriptor=d32,metadatarecvd=yes,reqholes=requested,errcode=success"
	if sym.Choose("what", 2) == 0 {
		mtu = sym.Choose("mtu", 141)
	} else {
		fl += []string{",", "", ",=", ",descriptor", ",descriptor=", ",reqtstamp", ",descriptor=d128", ",descriptor=d24", ",errcode", ",allholes=yes=no"}[sym.Choose("flag", 10)]
	}
	sarflags.MtuSet(mtu)
	r := t.WriteStatus(new(gocui.Gui), fl)
	fs := vh.Drain(l)
	holes := 0
	for _, f := range fs {
		sym.Assert(len(f) <= mtu-68, "every status frame fits the path MTU")
		holes += (len(f) - 16) / 8
	}
	if r == "success" {
		sym.Assert(len(fs) > 0, "a report that succeeds sends a status")
		sym.Assert(holes == n, "a report that succeeds reports every hole")
		sym.Cover("sent")
	} else {
		sym.Cover("refused")
	}
}
