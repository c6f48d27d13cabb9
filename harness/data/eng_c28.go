package data

import (
	"net"
	"syscall"

	"github.com/charlesetsmith/saratoga/zzverif/stub"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
)

func Verif_C28_data_address() {
	sym.Bound("every data frame with a payload of 2 bytes, sent from a socket that is not connected to an IPv4, an IPv6 or a link-local address of two links, where it may fail")
	x := arbitrary(2)
	tos := []*net.UDPAddr{
		{IP: net.IP{10, 0, 0, 7}, Port: 40000},
		{IP: net.IP{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0xff, 10, 0, 0, 7}, Port: 7542},
		{IP: net.ParseIP("2001:db8::7"), Port: 7542},
		{IP: net.ParseIP("fe80::7"), Port: 7542, Zone: "eth0"},
		{IP: net.ParseIP("fe80::7"), Port: 40000, Zone: "eth1"},
	}
	to := tos[sym.Choose("to", len(tos))]
	nw, any := "udp6", net.IPv6zero
	if to.IP.To4() != nil {
		nw, any = "udp4", net.IPv4zero
	}
	c, err := net.ListenUDP(nw, &net.UDPAddr{IP: any})
	if err != nil {
		panic(err)
	}
	want, refused := x.Encode()
	n := len(stub.Wire)
	if sym.Choose("fails", 2) == 1 {
		stub.SendError = syscall.ENOBUFS
		sym.Assert(x.Send(c, to) != nil, "a frame that could not be sent is an error")
		sym.Assert(len(stub.Wire) == n, "a frame that could not be sent is not sent")
		stub.SendError = nil
		sym.Cover("failed")
		return
	}
	err = x.Send(c, to)
	if refused != nil {
		sym.Assert(err != nil && len(stub.Wire) == n, "a frame that cannot be encoded is not sent")
		return
	}
	sym.Assert(err == nil, "a frame that can be encoded is sent")
	sym.Assert(len(stub.Wire) == n+1, "a frame is sent once, as one datagram")
	for _, w := range stub.Wire[n:] {
		sym.Assert(sym.EqBytes(w.Data, want), "what is sent is the frame's encoding")
		sym.Assert(w.To.IP.Equal(to.IP) && w.To.Port == to.Port && w.To.Zone == to.Zone, "a frame goes to its addressee only")
		sym.Cover("sent")
	}
}
