package data

import (
	"net"

	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_C28_data() {
	sym.Bound("every data frame with a payload of 0, 1, 2, 64, 1400 or 9000 bytes, sent twice over a connection dialled to the addressee or a socket that is not connected")
	x := arbitrary([]int{0, 1, 2, 64, 1400, 9000}[sym.Choose("paylen", 6)])
	vh.Sends(sym.Choose("mode", 2), x.Encode, func(c *net.UDPConn, to *net.UDPAddr) error { return x.Send(c, to) })
}
