package main

import (
	"net"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/metadata"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/charlesetsmith/saratoga/zzverif/stub"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
	"github.com/jroimartin/gocui"
)

var c30rx, c30tx chan interface{}

const c30mtu = 1500

// c30listen starts a listener on the multicast socket of the IP version.
func c30listen(v int) {
	sarflags.MtuSet(c30mtu)
	ifi := &net.Interface{Index: 2, MTU: c30mtu, Name: "eth0"}
	nw := []string{"udp4", "udp6"}[v]
	conn, err := net.ListenMulticastUDP(nw, ifi, &net.UDPAddr{IP: net.ParseIP(c25groups[v]), Port: 7542})
	if err != nil {
		panic(err)
	}
	c30rx, c30tx = make(chan interface{}, 8), make(chan interface{}, 8)
	quit := make(chan error, 1)
	go func() {
		listen(new(gocui.Gui), conn, c30rx, c30tx, quit)
		sym.Fail("the listener goes on")
	}()
}

func c30sameaddr(a net.UDPAddr, b *net.UDPAddr) bool {
	return a.IP.Equal(b.IP) && a.Port == b.Port && a.Zone == b.Zone
}

// c30want checks what became of datagram d from the address given.
func c30want(d []byte, from *net.UDPAddr) {
	var up, ans interface{}
	if len(c30rx) > 0 {
		up = <-c30rx
	}
	if len(c30tx) > 0 {
		ans = <-c30tx
	}
	if len(d) < 8 || len(d) > c30mtu-60 {
		sym.Cover("too short or too long")
		sym.Assert(up == nil && ans == nil, "a datagram too short or too long is dropped")
		return
	}
	h := c25word(d)
	session := c25word(d[4:])
	if vh.HGet(h, "version") != vh.HOpt("version", "v1") {
		sym.Cover("another version")
		sym.Assert(up == nil, "a frame of another version is not handed up")
		c30answer(ans, from, 0)
		return
	}
	if vh.HGet(h, "frametype") > vh.HOpt("frametype", "status") {
		sym.Cover("unknown type")
		sym.Assert(up == nil && ans == nil, "a frame of an unknown type is dropped")
		return
	}
	ok := false
	c := append([]byte(nil), d...)
	switch vh.HGet(h, "frametype") {
	case vh.HOpt("frametype", "beacon"):
		var w beacon.Beacon
		if w.Decode(c) != nil {
			sym.Assert(up == nil && ans == nil, "a beacon that does not decode is dropped")
			return
		}
		if g, is := up.(beacon.Packet); is {
			ok = sym.And(c30sameaddr(g.Addr, from), g.Info.Header == w.Header, g.Info.Freespace == w.Freespace, sym.EqStr(g.Info.Eid, w.Eid))
		}
	case vh.HOpt("frametype", "request"):
		var w request.Request
		if w.Decode(c) != nil {
			sym.Assert(up == nil && ans == nil, "a request that does not decode is dropped")
			return
		}
		if g, is := up.(request.Packet); is {
			ok = sym.And(c30sameaddr(g.Addr, from), g.Info.Header == w.Header, g.Info.Session == w.Session, sym.EqStr(g.Info.Fname, w.Fname), sym.EqBytes(g.Info.Auth, w.Auth))
		}
	case vh.HOpt("frametype", "data"):
		var w data.Data
		if w.Decode(c) != nil {
			sym.Assert(up == nil, "data that does not decode is not handed up")
			c30answer(ans, from, session)
			return
		}
		if g, is := up.(data.Packet); is {
			ok = sym.And(c30sameaddr(g.Addr, from), g.Info.Header == w.Header, g.Info.Session == w.Session, g.Info.Offset == w.Offset, sym.EqBytes(g.Info.Payload, w.Payload), vh.SameTstamp(&g.Info.Tstamp, &w.Tstamp))
		}
	case vh.HOpt("frametype", "metadata"):
		var w metadata.MetaData
		if w.Decode(c) != nil {
			sym.Assert(up == nil, "metadata that does not decode is not handed up")
			c30answer(ans, from, session)
			return
		}
		if g, is := up.(metadata.Packet); is {
			ok = sym.And(c30sameaddr(g.Addr, from), g.Info.Header == w.Header, g.Info.Session == w.Session, sym.EqBytes(g.Info.Checksum, w.Checksum),
				g.Info.Dir.Header == w.Dir.Header, g.Info.Dir.Size == w.Dir.Size, vh.SameTstamp(&g.Info.Dir.Mtime, &w.Dir.Mtime), vh.SameTstamp(&g.Info.Dir.Ctime, &w.Dir.Ctime), sym.EqStr(g.Info.Dir.Path, w.Dir.Path))
		}
	case vh.HOpt("frametype", "status"):
		var w status.Status
		if w.Decode(c) != nil {
			sym.Assert(up == nil, "a status that does not decode is not handed up")
			c30answer(ans, from, session)
			return
		}
		if g, is := up.(status.Packet); is {
			ok = sym.And(c30sameaddr(g.Addr, from), g.Info.Header == w.Header, g.Info.Session == w.Session, g.Info.Progress == w.Progress, g.Info.Inrespto == w.Inrespto, vh.SameTstamp(&g.Info.Tstamp, &w.Tstamp), len(g.Info.Holes) == len(w.Holes))
			for i := range w.Holes {
				if i < len(g.Info.Holes) {
					ok = sym.And(ok, g.Info.Holes[i].Start == w.Holes[i].Start, g.Info.Holes[i].End == w.Holes[i].End)
				}
			}
		}
	}
	sym.Cover("handed up")
	sym.Assert(ok, "a well-formed frame is handed up as it is, with its sender")
	sym.Assert(ans == nil, "a well-formed frame is not answered by the listener")
}

// c30answer: ans is a bad-packet status for the session, to the address, that
// can be sent.
func c30answer(ans interface{}, to *net.UDPAddr, session uint32) {
	sym.Cover("answered")
	st, is := ans.(status.Packet)
	if !is {
		sym.Fail("a frame that does not decode is answered with a status")
		return
	}
	s := st.Info
	sym.Assert(c30sameaddr(st.Addr, to), "the answer goes to the sender")
	sym.Assert(s.Session == session, "the answer has the session of the frame")
	sym.Assert(sym.And(vh.HGet(s.Header, "errcode") == vh.HOpt("errcode", "badpacket"), vh.HGet(s.Header, "version") == vh.HOpt("version", "v1"), vh.HGet(s.Header, "frametype") == vh.HOpt("frametype", "status")), "the answer says that the packet was bad")
	sym.Assert(sym.And(s.Progress == 0, s.Inrespto == 0, len(s.Holes) == 0), "the answer claims no progress")
	_, err := s.Encode()
	sym.Assert(err == nil, "the answer can be sent")
}

func c30idle() {
	sym.Assert(len(c30rx) == 0 && len(c30tx) == 0, "every datagram is handed up or answered once")
}

func Verif_C30_one() {
	ns := []int{0, 3, 4, 7, 8, 9, 10, 11, 12, 14, 16}
	if sym.Thorough() {
		ns = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 24}
	}
	sym.Bound("any datagram of 0, 3, 4, 7 to 12, 14 or 16 bytes (thorough: up to 20, and 24), from an IPv4 or IPv6 sender")
	v := sym.Choose("socket", 2)
	c30listen(v)
	d := sym.Bytes("datagram", ns[sym.Choose("len", len(ns))])
	from := c25addr(v, 7)
	c25in(v, from, d)
	sym.WaitIdle()
	c30want(d, from)
	c30idle()
}

// Longer frames, of a given type.
func Verif_C30_typed() {
	sym.Bound("any data frame of 18 to 48 bytes, status of 18 to 42, metadata of 22 to 44 (with any checksum and a path of up to 3 bytes), each a selection of lengths; any header")
	k := sym.Choose("type", 3)
	ft := []uint32{vh.HOpt("frametype", "data"), vh.HOpt("frametype", "status"), vh.HOpt("frametype", "metadata")}[k]
	ns := [][]int{{18, 20, 24, 25, 26, 28, 31, 32, 33, 48}, {18, 20, 24, 28, 29, 32, 40, 42}, {22, 24, 28, 36, 40, 44}}[k]
	n := ns[sym.Choose("len", len(ns))]
	h := sym.U32("header")
	sym.Assume(sym.And(vh.HGet(h, "version") == vh.HOpt("version", "v1"), vh.HGet(h, "frametype") == ft))
	d := append(vh.Be(nil, uint64(h), 4), sym.Bytes("rest", n-4)...)
	if k == 2 {
		d[n-1] = 0
		for i := 8; i < n-4; i++ { // the checksum and numbers are no path
			sym.Assume(d[i] != 0)
		}
	}
	v := sym.Choose("socket", 2)
	c30listen(v)
	from := c25addr(v, 7)
	c25in(v, from, d)
	sym.WaitIdle()
	c30want(d, from)
	c30idle()
}

// Several datagrams: none is lost, changed by another, or out of turn.
func Verif_C30_several() {
	n := 10
	if sym.Thorough() {
		n = 11
	}
	sym.Bound("three datagrams that arrive together from two senders: any of 9 or 10 (thorough: 11) bytes, and one before or after that is a beacon, a request, data or a frame of another version; the frames are taken after all arrived")
	v := sym.Choose("socket", 2)
	c30listen(v)
	d := [][]byte{nil, nil, nil}
	at := sym.Choose("at", 2)
	for i := range d {
		if i == at {
			d[i] = sym.Bytes("datagram", 9+sym.Choose("len", n-8))
		} else {
			d[i] = c30frame(sym.Choose([]string{"kind0", "kind1", "kind2"}[i], 4))
		}
	}
	from := []*net.UDPAddr{c25addr(v, 7), c25addr(v, 8), c25addr(v, 7)}
	for i := range d {
		c25in(v, from[i], d[i])
	}
	sym.WaitIdle()
	// what goes up and what is answered are two queues: take them in turn
	rx, tx := c30rx, c30tx
	for i := range d {
		c30rx, c30tx = make(chan interface{}, 1), make(chan interface{}, 1)
		if c30up(d[i]) {
			if len(rx) > 0 {
				c30rx <- <-rx
			}
		} else if c30ans(d[i]) {
			if len(tx) > 0 {
				c30tx <- <-tx
			}
		}
		c30want(d[i], from[i])
	}
	c30rx, c30tx = rx, tx
	c30idle()
}

// c30up, c30ans: the datagram (of 8 bytes or more) is handed up, answered.
func c30up(d []byte) bool {
	h := c25word(d)
	c := append([]byte(nil), d...)
	if vh.HGet(h, "version") != vh.HOpt("version", "v1") {
		return false
	}
	switch vh.HGet(h, "frametype") {
	case 0:
		var f beacon.Beacon
		return f.Decode(c) == nil
	case 1:
		var f request.Request
		return f.Decode(c) == nil
	case 2:
		var f metadata.MetaData
		return f.Decode(c) == nil
	case 3:
		var f data.Data
		return f.Decode(c) == nil
	case 4:
		var f status.Status
		return f.Decode(c) == nil
	}
	return false
}

func c30ans(d []byte) bool {
	h := c25word(d)
	if vh.HGet(h, "version") != vh.HOpt("version", "v1") {
		return true
	}
	t := vh.HGet(h, "frametype")
	return t >= 2 && t <= 4
}

func c30frame(k int) []byte {
	switch k {
	case 0:
		return append(vh.Be(nil, uint64(c25hdr("frametype", "beacon", "rxwilling", "yes")), 4), "other"...)
	case 1:
		return append(vh.Be(nil, uint64(c25hdr("frametype", "request", "reqtype", "put")), 4), 0, 0, 0, 5, 'y', 0, 'q', 'q')
	case 2:
		return append(vh.Be(nil, uint64(c25hdr("frametype", "data", "descriptor", "d16")), 4), 0, 0, 0, 6, 1, 2, 'p', 'a', 'y')
	}
	return []byte{0, 0, 0, 0, 9, 9, 9, 9}
}

// What is answered goes out, on the network.
func Verif_C30_answers() {
	sym.Bound("the node and any datagram of 8 bytes from an IPv4 or IPv6 sender: what it sends")
	c25node()
	v := sym.Choose("socket", 2)
	d := sym.Bytes("datagram", 8)
	from := c25addr(v, 7)
	h := c25word(d)
	t := vh.HGet(h, "frametype")
	// no beacon or request, which others look at
	sym.Assume(sym.Or(vh.HGet(h, "version") != vh.HOpt("version", "v1"), t >= 2))
	wire := len(stub.Wire)
	c25in(v, from, d)
	sym.WaitIdle()
	sent := stub.Wire[wire:]
	if !c30ans(d) {
		sym.Assert(len(sent) == 0, "nothing is sent in answer to what is no frame")
		return
	}
	sym.Assert(len(sent) == 1, "a frame that does not decode is answered once")
	for _, w := range sent {
		session := uint32(0)
		if vh.HGet(h, "version") == vh.HOpt("version", "v1") {
			session = c25word(d[4:])
		}
		sym.Assert(c30sameaddr(w.To, from), "the answer goes to the sender")
		var st status.Status
		if st.Decode(w.Data) != nil {
			sym.Fail("the answer is a status")
			return
		}
		c30answer(st.Val(&w.To), from, session)
	}
}

// Up to the size the link carries, and past it.
func Verif_C30_size() {
	sym.Bound("datagrams of 1439, 1440, 1441, 1500 and 1540 bytes with any header and session, the rest concrete; the link carries 1500")
	v := sym.Choose("socket", 2)
	c30listen(v)
	n := []int{1439, 1440, 1441, 1500, 1540}[sym.Choose("len", 5)]
	d := sym.Bytes("datagram", 8)
	for i := 8; i < n; i++ {
		x := byte(i)
		if n-i < 3 {
			x = 0
		}
		d = append(d, x)
	}
	from := c25addr(v, 7)
	c25in(v, from, d)
	sym.WaitIdle()
	c30want(d, from)
	c30idle()
}

// What was handed up stays as it is when other datagrams follow.
func Verif_C30_kept() {
	sym.Bound("a data or status frame with and without a timestamp, or metadata with and without a checksum, with each descriptor, or a request with authentication, or a beacon; everything but its header and timestamp type arbitrary; taken after another of the same length arrived that differs in every byte but those of the header")
	var h uint32
	desc := sym.Choose("descriptor", 3)
	o := []string{"d16", "d32", "d64"}[desc]
	size := vh.DescSize(desc)
	ts := sym.Choose("extra", 2)
	n, at := 0, -1
	kind := sym.Choose("kind", 5)
	switch kind {
	case 0, 1:
		n = 8 + size + 3
		if kind == 1 {
			n = 8 + 2*size + 2*size
		}
		h = c25hdr("frametype", []string{"data", "status"}[kind], "descriptor", o)
		if ts == 1 {
			h = vh.HSet(h, "reqtstamp", "yes")
			n += 16
			at = 8
		}
	case 2:
		n = 8 + 2 + size + 8 + 3
		h = c25hdr("frametype", "metadata", "descriptor", o)
		if ts == 1 {
			h = vh.HSet(vh.HSet(h, "csumtype", "crc32"), "csumlen", "crc32")
			n += 4
		}
	case 3:
		n = 8 + 3 + 2
		h = c25hdr("frametype", "request", "descriptor", o, "reqtype", "get")
	case 4:
		n = 4 + 5
		h = c25hdr("frametype", "beacon", "descriptor", o)
		if ts == 1 {
			h = vh.HSet(vh.HSet(h, "freespace", "yes"), "freespaced", o)
			n += size
		}
	}
	d := append(vh.Be(nil, uint64(h), 4), sym.Bytes("rest", n-4)...)
	if at > 0 {
		d[at] = 4 // posix64
	}
	switch kind {
	case 2:
		p := 8 + 4*ts
		d[p], d[p+1] = 0, byte(desc)<<6
		d[n-1] = 0
		sym.Assume(sym.And(d[n-3] != 0, d[n-2] != 0))
	case 3:
		d[10] = 0
		sym.Assume(sym.And(d[8] != 0, d[9] != 0))
	}
	e := append([]byte(nil), d...)
	for i := 4; i < n; i++ {
		if i != at {
			e[i] ^= 0xff
		}
	}
	v := sym.Choose("socket", 2)
	c30listen(v)
	from := c25addr(v, 7)
	c25in(v, from, d)
	sym.WaitIdle()
	c25in(v, c25addr(v, 8), e)
	sym.WaitIdle()
	rx, tx := c30rx, c30tx
	c30rx, c30tx = make(chan interface{}, 1), make(chan interface{}, 1)
	if len(rx) > 0 {
		c30rx <- <-rx
	} else {
		sym.Fail("a well-formed frame is handed up")
	}
	c30want(d, from)
	c30rx, c30tx = rx, tx
}
