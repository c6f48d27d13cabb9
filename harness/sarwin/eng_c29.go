package sarwin

import (
	"errors"
	"net"
	"net/netip"
	"strings"
	"time"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/zzverif/stub"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

// c29to: the datagrams sent since the first n, all of which go to addr.
type c29dest struct {
	ip   net.IP
	zone string
}

func c29ip(s string) (c29dest, bool) {
	a, err := netip.ParseAddr(s)
	if err != nil {
		return c29dest{}, false
	}
	return c29dest{net.IP(a.AsSlice()), a.Zone()}, true
}

// c29check: exactly count beacons went to each address, in order, interval
// apart, each what the settings ask for.
func c29check(dests []c29dest, count int, interval int64) {
	c := sarflags.Cliflag
	sym.Assert(len(stub.Wire) == len(dests)*count, "bcount beacons go to each address, and nothing else is sent")
	sym.Assert(len(stub.Slept) == len(dests)*count, "there is a pause after each beacon")
	if len(stub.Wire) != len(dests)*count || len(stub.Slept) != len(dests)*count {
		return
	}
	for i, d := range stub.Wire {
		to := dests[i/count]
		sym.Assert(d.To.IP.Equal(to.ip) && d.To.Zone == to.zone && d.To.Port == 7542, "beacons go to the Saratoga port of the addresses, in the order given")
		sym.Assert(stub.Slept[i] == time.Duration(interval)*time.Second, "the pause is the interval")
		free := c.Global["freespace"] == "yes"
		if len(d.Data) < 4 {
			sym.Fail("what is sent is a beacon")
			return
		}
		h := uint32(d.Data[0])<<24 | uint32(d.Data[1])<<16 | uint32(d.Data[2])<<8 | uint32(d.Data[3])
		want := vh.HSet(vh.HSet(0, "version", "v1"), "frametype", "beacon")
		for _, f := range []string{"descriptor", "stream", "txwilling", "rxwilling", "udplite", "freespace"} {
			if o, ok := c.Global[f]; ok {
				want = vh.HSet(want, f, o)
			}
		}
		fd := vh.FieldNamed("freespaced")
		sym.Assert(h&^fd.Mask() == want, "the beacon has the flags of the settings")
		rest := d.Data[4:]
		if free {
			kb := stub.StatfsKB()
			de := fd.Get(h)
			sym.Assert(sym.And(de < 3, vh.Fits(de, kb)), "the free space is advertised with a size that holds it")
			n := 2
			if de == 1 {
				n = 4
			} else if de == 2 {
				n = 8
			}
			if len(rest) < n {
				sym.Fail("the free space is in the beacon")
				return
			}
			v := uint64(0)
			for _, b := range rest[:n] {
				v = v<<8 | uint64(b)
			}
			sym.Assert(v == kb, "the beacon advertises the free space there is")
			rest = rest[n:]
		} else {
			sym.Assert(fd.Get(h) == 0, "no size of free space without free space")
		}
		sym.Assert(string(rest) == d.From.String()+"-4711", "the beacon identifies the node by its address and process")
	}
	sym.Cover("checked")
}

// c29wait lets what was started finish, sleeping as it may.
func c29wait() {
	for i := 0; i < 16; i++ {
		sym.WaitIdle()
		sym.Pause(1)
	}
}

func c29reset() {
	stub.Wire, stub.Slept = nil, nil
}

func c29dests(v []string) (ds []c29dest) {
	c := sarflags.Cliflag
	if len(v) < 2 || v[1] == "off" || v[1] == "?" {
		return nil
	}
	if len(v) == 2 && v[1] == "v4" {
		v = []string{"beacon", c.V4Multicast}
	}
	if len(v) == 2 && v[1] == "v6" {
		v = []string{"beacon", c.V6Multicast}
	}
	for _, a := range v[1:] {
		if d, ok := c29ip(a); ok {
			ds = append(ds, d)
		}
	}
	return ds
}

var c29args = []string{"127.0.0.1", "10.1.2.3", "2001:db8::9", "fe80::1%eth0", "1.2.3", "node", "off"}

// Which addresses get beacons.
func Verif_C29_addresses() {
	sym.Bound("beacon with no argument, one (each kind of address and word) or two or three addresses, some invalid; 0 to 3 beacons; any interval of 0 to 2^32 s; the settings of the configuration")
	c := sarflags.Cliflag
	count := sym.Choose("bcount", 4)
	interval := sym.Range("interval", 0, 1<<32)
	c.Bcount, c.Timeout.Binterval = uint(count), uint(interval)
	var v []string
	switch n := sym.Choose("args", 4); n {
	case 0:
		v = []string{"beacon"}
	case 1:
		a := append([]string{"v4", "v6", "?", "1.2.3.4.5", "1.2.3.256", "::1", "::g"}, c29args...)
		v = []string{"beacon", a[sym.Choose("a", len(a))]}
	case 2:
		v = []string{"beacon", c29args[sym.Choose("a", len(c29args))], c29args[sym.Choose("b", len(c29args))]}
	default:
		k := sym.Choose("a", len(c29args))
		v = []string{"beacon", c29args[k], c29args[(k+1)%len(c29args)], c29args[sym.Choose("b", 4)]}
	}
	c29reset()
	Run(c18gui(), strings.Join(v, " "))
	c29wait()
	c29check(c29dests(v), count, int64(interval))
	// the next command is not held up
	stub.Wire, stub.Slept = nil, nil
	c.Bcount = 1
	Run(c18gui(), "beacon 127.0.0.1")
	c29wait()
	c29check(c29dests([]string{"", "127.0.0.1"}), 1, int64(interval))
}

// An address of any few bytes.
func Verif_C29_anyaddress() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	sym.Bound("beacon to any word of 1 to 3 (thorough: 4) bytes other than v4, v6, off and ?")
	a := sym.String("address", 1+sym.Choose("len", n))
	for i := 0; i < len(a); i++ {
		sym.Assume(sym.And(a[i] > ' ', a[i] < 0x7f))
	}
	for _, w := range []string{"v4", "v6", "off", "?"} {
		sym.Assume(sym.Not(sym.EqStr(a, w)))
	}
	c := sarflags.Cliflag
	c.Bcount, c.Timeout.Binterval = 1, 0
	c29reset()
	var to []c29dest
	if d, ok := c29ip(a); ok {
		sym.Cover("an address")
		if len(d.ip) == 16 && string(d.ip) == string(make([]byte, 16)) {
			d.ip = net.IP{127, 0, 0, 1} // this host
		}
		to = append(to, d)
	}
	Run(c18gui(), "beacon "+a)
	c29wait()
	if len(to) == 1 && to[0].zone != "" {
		return // an interface there is, or is not
	}
	c29check(to, 1, 0)
}

// What the beacons say.
func Verif_C29_settings() {
	sym.Bound("one or two beacons to an IPv4, IPv6 or multicast address, with every setting of the flags a beacon has; any free space up to 2^54 kB")
	c := sarflags.Cliflag
	pick := func(f string, o ...string) {
		c.Global[f] = o[sym.Choose(f, len(o))]
	}
	pick("descriptor", "d16", "d32", "d64")
	pick("stream", "no", "yes")
	pick("txwilling", "no", "capable", "yes")
	pick("rxwilling", "no", "capable", "yes")
	pick("freespace", "no", "yes")
	v := []string{"beacon", []string{"v4", "v6", "10.1.2.3"}[sym.Choose("to", 3)]}
	count := 1
	if c.Global["descriptor"] == "d64" {
		count = 2
	}
	c.Bcount, c.Timeout.Binterval = uint(count), 3
	c29reset()
	Run(c18gui(), strings.Join(v, " "))
	c29wait()
	c29check(c29dests(v), count, 3)
}

// An address that cannot be reached does not keep the others from their beacons.
func Verif_C29_unreachable() {
	sym.Bound("beacon to three addresses one of which cannot be dialled, or cannot be sent to from the first or the second beacon on; two beacons")
	c := sarflags.Cliflag
	c.Bcount, c.Timeout.Binterval = 2, 3
	addrs := []string{"10.1.2.3", "2001:db8::9", "10.1.2.4"}
	v := append([]string{"beacon"}, addrs...)
	bad := sym.Choose("bad", 3)
	badip, _ := c29ip(addrs[bad])
	var good []string
	good = append(good, "beacon")
	for i, a := range addrs {
		if i != bad {
			good = append(good, a)
		}
	}
	c29reset()
	sent := 0
	fail := sym.Choose("fails", 3)
	if fail == 0 {
		stub.DialFails = func(to *net.UDPAddr) error {
			if to.IP.Equal(badip.ip) {
				return errors.New("unreachable")
			}
			return nil
		}
	} else {
		stub.SendFails = func(to *net.UDPAddr) error {
			if to.IP.Equal(badip.ip) {
				sent++
				if sent >= fail {
					return errors.New("unreachable")
				}
			}
			return nil
		}
	}
	Run(c18gui(), strings.Join(v, " "))
	c29wait()
	var w []stub.Dgram
	for _, d := range stub.Wire {
		if !d.To.IP.Equal(badip.ip) {
			w = append(w, d)
		}
	}
	sym.Assert(len(w) == 4, "the addresses that can be reached get their beacons")
	stub.Wire = w
	stub.Slept = []time.Duration{3 * time.Second, 3 * time.Second, 3 * time.Second, 3 * time.Second}
	c29check(c29dests(good), 2, 3)
}

// A long run of beacons.
func Verif_C29_many() {
	sym.Bound("257 (thorough: also 1025) beacons to one address, every 2 s")
	c := sarflags.Cliflag
	count := 257
	if sym.Thorough() && sym.Choose("more", 2) == 1 {
		count = 1025
	}
	c.Bcount, c.Timeout.Binterval = uint(count), 2
	c29reset()
	v := []string{"beacon", "10.1.2.3"}
	Run(c18gui(), strings.Join(v, " "))
	for i := 0; i < count && len(stub.Wire) < count; i++ {
		sym.WaitIdle()
		sym.Pause(2e9)
	}
	c29wait()
	c29check(c29dests(v), count, 2)
}
