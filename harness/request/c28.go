package request

import (
	"net"

	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_C28_request() {
	sym.Bound("every request with a name of 0 to 2 or 1024 bytes and an authentication of 0, 1 or 300 bytes, sent twice over a connection dialled to the addressee or a socket that is not connected")
	x := Request{Header: sym.U32("header"), Session: sym.U32("session"), Fname: sym.String("fname", []int{0, 1, 2, 1024}[sym.Choose("namelen", 4)]), Auth: sym.Bytes("auth", []int{0, 1, 300}[sym.Choose("authlen", 3)])}
	vh.Sends(sym.Choose("mode", 2), x.Encode, func(c *net.UDPConn, to *net.UDPAddr) error { return x.Send(c, to) })
}
