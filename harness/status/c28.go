package status

import (
	"net"

	"github.com/charlesetsmith/saratoga/holes"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_C28_status() {
	sym.Bound("every status frame with 0 to 3 holes, or with 88 or 150 of which the first 85 or 147 are fixed, sent twice over a connection dialled to the addressee or a socket that is not connected")
	n := []int{0, 1, 2, 3, 88, 150}[sym.Choose("holes", 6)]
	x := arbitrary("", n)
	for i := 0; i < n-3; i++ {
		x.Holes[i] = holes.Hole{Start: 3 * i, End: 3*i + 1}
	}
	vh.Sends(sym.Choose("mode", 2), x.Encode, func(c *net.UDPConn, to *net.UDPAddr) error { return x.Send(c, to) })
}
