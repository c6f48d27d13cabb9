package vh

import (
	"net"
	"time"

	"github.com/charlesetsmith/saratoga/zzverif/sym"
)

// Listener is a socket on the loopback at a port of the system's choice.
func Listener() (*net.UDPConn, *net.UDPAddr) {
	l, err := net.ListenUDP("udp", &net.UDPAddr{IP: net.IP{127, 0, 0, 1}})
	if err != nil {
		panic(err)
	}
	return l, l.LocalAddr().(*net.UDPAddr)
}

// Drain takes what has arrived at l.
func Drain(l *net.UDPConn) [][]byte {
	var fs [][]byte
	for {
		b := make([]byte, 10000)
		if sym.Engine() {
			l.SetReadDeadline(time.Unix(1, 0))
		} else {
			l.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
		}
		n, _, err := l.ReadFromUDP(b)
		if err != nil {
			return fs
		}
		fs = append(fs, b[:n])
	}
}

// Sends checks that send puts exactly what encode makes on the wire to the
// addressee and to nobody else, once each time, and nothing when encode refuses.
// The connection is one dialled to the addressee, or (mode 1) any socket.
func Sends(mode int, encode func() ([]byte, error), send func(c *net.UDPConn, to *net.UDPAddr) error) {
	l, to := Listener()
	defer l.Close()
	other, _ := Listener()
	defer other.Close()
	var c *net.UDPConn
	if mode == 0 {
		var err error
		if c, err = net.DialUDP("udp", nil, to); err != nil {
			panic(err)
		}
	} else {
		c, _ = Listener()
	}
	defer c.Close()
	want, refused := encode()
	for i := 0; i < 2; i++ {
		err := send(c, to)
		got := Drain(l)
		if refused != nil {
			sym.Assert(err != nil, "a frame that cannot be encoded is not sent")
			sym.Assert(len(got) == 0, "a frame that cannot be encoded is not sent")
			sym.Cover("refused")
			continue
		}
		sym.Assert(err == nil, "a frame that can be encoded is sent")
		sym.Assert(len(got) == 1, "a frame is sent once, as one datagram")
		if len(got) == 1 {
			sym.Assert(sym.EqBytes(got[0], want), "what is sent is the frame's encoding")
		}
		sym.Cover("sent")
	}
	sym.Assert(len(Drain(other)) == 0, "a frame goes to its addressee only")
}
