package sarwin

import (
	"net"

	"github.com/charlesetsmith/saratoga/zzverif/vh"
)

func Verif_Setup() { vh.Setup() }

func vaddr(port int) *net.UDPAddr { return &net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: port} }
