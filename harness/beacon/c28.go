package beacon

import (
	"net"

	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_C28_beacon() {
	sym.Bound("every beacon with an identifier of 0 to 2, 255, 1400 or 9000 bytes, sent twice over a connection dialled to the addressee")
	x := arbitrary("", []int{0, 1, 2, 255, 1400, 9000}[sym.Choose("eidlen", 6)])
	vh.Sends(0, x.Encode, func(c *net.UDPConn, to *net.UDPAddr) error { return x.Send(c) })
}
