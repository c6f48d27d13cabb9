package main

import (
	"net"
	"os"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/charlesetsmith/saratoga/trans"
	"github.com/charlesetsmith/saratoga/zzverif/stub"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_Setup() { vh.Setup() }

var c25ended bool

// c25node starts the node, on a network and a terminal that are modelled.
func c25node() {
	s := sarflags.Cliflag.Sardir // of the configuration
	if err := os.MkdirAll(s, 0755); err != nil {
		panic(err)
	}
	if err := os.WriteFile(s+"/f", []byte("file"), 0644); err != nil {
		panic(err)
	}
	wd, _ := os.Getwd()
	os.Args = []string{"saratoga", wd + "/saratoga.json", "eth0"}
	beacon.Peers = nil
	trans.Transfers = nil
	go func() { main(); c25ended = true }()
	sym.WaitIdle()
	sym.Assert(!c25ended, "the node runs")
}

var c25groups = []string{"224.0.0.108", "ff02::6c"}

func c25addr(v, host int) *net.UDPAddr {
	if v == 0 {
		return &net.UDPAddr{IP: net.IP{10, 0, 0, byte(host)}, Port: 40000}
	}
	ip := net.ParseIP("fe80::")
	ip[15] = byte(host)
	return &net.UDPAddr{IP: ip, Port: 40000, Zone: "eth0"}
}

func c25in(v int, from *net.UDPAddr, d []byte) {
	if !stub.Inject(c25groups[v], from, d) {
		sym.Fail("the node listens")
	}
}

func c25hdr(opts ...string) uint32 {
	h := vh.HSet(0, "version", "v1")
	for i := 0; i < len(opts); i += 2 {
		h = vh.HSet(h, opts[i], opts[i+1])
	}
	return h
}

func c25peer(addr string) *beacon.Peer {
	for i := range beacon.Peers {
		if beacon.Peers[i].Addr == addr {
			return &beacon.Peers[i]
		}
	}
	return nil
}

// c25serves: the node still takes a beacon and answers a request, that from
// the host given, on the socket v.
func c25serves(v, host int) {
	from := c25addr(v, host)
	// beacon: d16, willing to receive, no free space, eid "node-9"
	b := vh.Be(nil, uint64(c25hdr("frametype", "beacon", "rxwilling", "yes", "txwilling", "no")), 4)
	c25in(v, from, append(b, "node-9"...))
	sym.WaitIdle()
	p := c25peer(from.IP.String())
	if p == nil {
		p = c25peer(from.String())
	}
	if p == nil {
		sym.Fail("a beacon that arrives later is put in the peer table")
	} else {
		sym.Assert(p.Eid == "node-9" && p.Canrx == "yes" && p.Cantx == "no", "a beacon that arrives later is put in the peer table")
	}
	c25asks(v, host, 0x01020304)
}

// c25asks: a request to put a file that is not there (no request makes files)
// is answered.
func c25asks(v, host int, session uint32) {
	from := c25addr(v, host)
	wire, tr := len(stub.Wire), len(trans.Transfers)
	r := vh.Be(nil, uint64(c25hdr("frametype", "request", "reqtype", "put", "rxwilling", "yes", "txwilling", "yes")), 4)
	r = vh.Be(r, uint64(session), 4)
	c25in(v, from, append(r, 'z', 0))
	sym.WaitIdle()
	n := 0
	for _, d := range stub.Wire[wire:] {
		if d.To.String() != from.String() {
			continue
		}
		n++
		var st status.Status
		if st.Decode(d.Data) != nil {
			sym.Fail("a request that arrives later is answered with a status")
			continue
		}
		sym.Assert(st.Session == session, "the answer has the request's session")
		sym.Assert(vh.HGet(st.Header, "errcode") == vh.HOpt("errcode", "success"), "the answer says what became of the request")
	}
	sym.Assert(n == 1, "a request that arrives later is answered")
	sym.Assert(len(trans.Transfers) == tr+1, "a request that arrives later is carried out")
	sym.Assert(!c25ended, "the node runs on")
}

// c25garbage: the datagram is not a frame of this version, of a known type.
func c25garbage(d []byte) bool {
	if len(d) < 8 {
		return true
	}
	h := c25word(d)
	return sym.Or(vh.HGet(h, "version") != vh.HOpt("version", "v1"), vh.HGet(h, "frametype") > vh.HOpt("frametype", "status"))
}

func c25word(d []byte) uint32 {
	return uint32(d[0])<<24 | uint32(d[1])<<16 | uint32(d[2])<<8 | uint32(d[3])
}

func Verif_C25_any() {
	ns := []int{0, 4, 7, 8, 9, 10, 11, 12}
	if sym.Thorough() {
		ns = []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14}
	}
	sym.Bound("any datagram of 0, 4 or 7 to 12 bytes (thorough: all lengths up to 14) on either socket, then a beacon and a request on both")
	c25node()
	v := sym.Choose("socket", 2)
	d := sym.Bytes("datagram", ns[sym.Choose("len", len(ns))])
	c25in(v, c25addr(v, 7), d)
	sym.WaitIdle()
	sym.Assert(sym.Implies(c25garbage(d), len(beacon.Peers) == 0 && len(trans.Transfers) == 0), "a datagram too short, or of another version or type, changes nothing")
	c25serves(v, 9)
	c25serves(1-v, 10)
}

func Verif_C25_long() {
	ns := []int{13, 14, 15, 16, 20, 24, 32}
	if sym.Thorough() {
		ns = []int{13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30, 32, 36, 40, 48}
	}
	sym.Bound("any datagram of 13 to 16, 20, 24 or 32 bytes (thorough: up to 48) that is no request, or a request with one of 8 file names and arbitrary authentication, on either socket, then a beacon and a request on both")
	c25node()
	v := sym.Choose("socket", 2)
	n := ns[sym.Choose("len", len(ns))]
	var d []byte
	if sym.Choose("request", 2) == 0 {
		d = sym.Bytes("datagram", n)
		sym.Assume(vh.HGet(c25word(d), "frametype") != vh.HOpt("frametype", "request"))
	} else {
		name := []string{"", "f", "x", ".", "..", "../f", "/", "f/x"}[sym.Choose("name", 8)]
		h := sym.U32("header")
		sym.Assume(sym.And(vh.HGet(h, "version") == vh.HOpt("version", "v1"), vh.HGet(h, "frametype") == vh.HOpt("frametype", "request")))
		d = vh.Be(vh.Be(nil, uint64(h), 4), uint64(sym.U32("session")), 4)
		d = append(append(d, name...), 0)
		if n > len(d) {
			d = append(d, sym.Bytes("auth", n-len(d))...)
		}
	}
	c25in(v, c25addr(v, 7), d)
	sym.WaitIdle()
	sym.Assert(sym.Implies(c25garbage(d), len(beacon.Peers) == 0 && len(trans.Transfers) == 0), "a datagram of another version or type changes nothing")
	c25serves(v, 9)
	c25serves(1-v, 10)
}

func Verif_C25_toolong() {
	sym.Bound("datagrams of 1439, 1440, 1441, 1500, 1541 and 9000 bytes with any first 8 bytes, the rest zero, on either socket; the link carries 1500")
	c25node()
	v := sym.Choose("socket", 2)
	n := []int{1439, 1440, 1441, 1500, 1541, 9000}[sym.Choose("len", 6)]
	d := append(sym.Bytes("datagram", 8), make([]byte, n-8)...)
	c25in(v, c25addr(v, 7), d)
	sym.WaitIdle()
	sym.Assert(n <= 1440 || len(beacon.Peers) == 0 && len(trans.Transfers) == 0, "a datagram that is too long changes nothing")
	c25serves(v, 9)
	c25serves(1-v, 10)
}

func Verif_C25_two() {
	ns := []int{8}
	if sym.Thorough() {
		ns = []int{3, 8, 9}
	}
	sym.Bound("any two datagrams of 8 bytes (thorough: 3, 8 or 9) on either socket from one sender or two, then a beacon and a request on both")
	c25node()
	for i, t := range []string{"1.", "2."} {
		v := sym.Choose(t+"socket", 2)
		d := sym.Bytes(t+"datagram", ns[sym.Choose(t+"len", len(ns))])
		c25in(v, c25addr(v, 7+sym.Choose(t+"from", i+1)), d)
		if i == 0 && sym.Thorough() && sym.Choose("wait", 2) == 1 {
			sym.WaitIdle()
		}
	}
	sym.WaitIdle()
	c25serves(0, 10)
	c25serves(1, 11)
}

// c25frame is a concrete datagram of kind k: a beacon, a request, a frame of
// another version, a data, metadata and status frame that do not decode.
func c25frame(k int) []byte {
	var b []byte
	switch k {
	case 0:
		b = vh.Be(b, uint64(c25hdr("frametype", "beacon", "rxwilling", "yes")), 4)
		return append(b, "other"...)
	case 1:
		b = vh.Be(b, uint64(c25hdr("frametype", "request", "reqtype", "put", "rxwilling", "yes", "txwilling", "yes")), 4)
		return append(vh.Be(b, 5, 4), 'y', 0)
	case 2:
		return vh.Be(b, 0, 8)
	case 3:
		b = vh.Be(b, uint64(c25hdr("frametype", "data", "descriptor", "d64")), 4)
	case 4:
		b = vh.Be(b, uint64(c25hdr("frametype", "metadata", "descriptor", "d64")), 4)
	case 5:
		b = vh.Be(b, uint64(c25hdr("frametype", "status", "descriptor", "d64")), 4)
	}
	return vh.Be(b, 5, 4)
}

func Verif_C25_schedules() {
	sym.Bound("two datagrams (a beacon and a request, a request and one of another version, two requests, two beacons, one of another version and data that does not decode, metadata and status that do not decode) that arrive at the same time, on one socket or both, then a beacon and a request on both; every interleaving with up to 1 (thorough: 2) preemptions at channels and locks, and no data race")
	c25node()
	n := 1
	if sym.Thorough() {
		n = 2
	}
	pairs := [][2]int{{0, 1}, {1, 1}, {1, 2}, {0, 0}, {2, 3}, {4, 5}}
	k := pairs[sym.Choose("kinds", len(pairs))]
	v2 := sym.Choose("socket", 2)
	c25in(0, c25addr(0, 7), c25frame(k[0]))
	c25in(v2, c25addr(v2, 8), c25frame(k[1]))
	sym.Races(true) // so switching at the synchronisation is enough
	sym.Preempt(n)
	sym.WaitIdle()
	sym.Preempt(0)
	c25serves(0, 10)
	c25serves(1, 11)
}
