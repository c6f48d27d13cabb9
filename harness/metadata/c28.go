package metadata

import (
	"net"

	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_C28_metadata() {
	sym.Bound("every metadata frame with a checksum of 0, 4 or 16 bytes and a path of 0, 1 or 1000 bytes, sent twice over a connection dialled to the addressee or a socket that is not connected")
	x := arbitrary([]int{0, 4, 16}[sym.Choose("csumlen", 3)], sym.String("path", []int{0, 1, 1000}[sym.Choose("pathlen", 3)]))
	vh.Sends(sym.Choose("mode", 2), x.Encode, func(c *net.UDPConn, to *net.UDPAddr) error { return x.Send(c, to) })
}
