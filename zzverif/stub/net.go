package stub

import (
	"io"
	"net"
	"net/netip"
	"os"
	"strconv"
	"syscall"
	"time"
	"unsafe"

	"github.com/charlesetsmith/saratoga/zzverif/sym"
)

// The network model: UDP sockets of one host and a perfect link between them.
// A datagram sent to an address no socket of the model is bound to leaves the
// model; Wire records every datagram sent.

type sock struct {
	local  net.UDPAddr
	remote *net.UDPAddr // connected to
	group  net.IP       // multicast group joined
	netw   string
	q      chan Dgram
	done   chan bool
	closed bool
	expire bool // a read deadline is set: an empty queue is a timeout
}

type Dgram struct {
	From, To net.UDPAddr
	Data     []byte
	s        *sock
}

// layout-compatible with net.conn and net.UDPConn
type connLike struct{ s *sock }
type udpLike struct{ c connLike }

var (
	Wire      []Dgram
	socks     []*sock
	nextPort  = 40000
	DialError error // what DialUDP fails with
	SendError error // what sending fails with
	// what dialling and sending to an address fail with
	DialFails, SendFails func(to *net.UDPAddr) error
)

func mkConn(s *sock) *net.UDPConn {
	s.q = make(chan Dgram, 256)
	s.done = make(chan bool)
	socks = append(socks, s)
	return (*net.UDPConn)(unsafe.Pointer(&udpLike{connLike{s}}))
}

func operr(op, netw string, src, addr *net.UDPAddr, err error) error {
	e := &net.OpError{Op: op, Net: netw, Err: err}
	if src != nil {
		e.Source = src
	}
	if addr != nil {
		e.Addr = addr
	}
	return e
}

func ephemeral() int { nextPort++; return nextPort - 1 }

func v4(ip net.IP) net.IP { return ip.To4() }

func anyIP(ip net.IP) bool {
	for _, b := range ip {
		if b != 0 {
			return false
		}
	}
	return true
}

func copyAddr(a *net.UDPAddr) net.UDPAddr {
	return net.UDPAddr{IP: append(net.IP(nil), a.IP...), Port: a.Port, Zone: a.Zone}
}

func sameIP(a, b net.IP) bool {
	if x, y := a.To4(), b.To4(); x != nil || y != nil {
		if x == nil || y == nil {
			return false
		}
		return string(x) == string(y)
	}
	return string(a) == string(b)
}

func bound(a *net.UDPAddr) bool {
	for _, s := range socks {
		if !s.closed && s.group == nil && s.local.Port == a.Port && (sameIP(s.local.IP, a.IP) || anyIP(s.local.IP) || anyIP(a.IP)) {
			return true
		}
	}
	return false
}

func net_DialUDP(network string, laddr, raddr *net.UDPAddr) (*net.UDPConn, error) {
	switch network {
	case "udp", "udp4", "udp6":
	default:
		return nil, operr("dial", network, laddr, raddr, net.UnknownNetworkError(network))
	}
	if raddr == nil {
		return nil, operr("dial", network, laddr, nil, &net.AddrError{Err: "missing address"})
	}
	if DialError != nil {
		return nil, operr("dial", network, laddr, raddr, DialError)
	}
	if DialFails != nil && DialFails(raddr) != nil {
		return nil, operr("dial", network, laddr, raddr, os.NewSyscallError("connect", DialFails(raddr)))
	}
	if raddr.IP.To4() == nil && len(raddr.IP) != 0 && len(raddr.IP) != 16 {
		return nil, operr("dial", network, laddr, raddr, &net.AddrError{Err: "non-IPv6 address", Addr: raddr.IP.String()})
	}
	if len(raddr.IP) == 16 && raddr.IP.To4() == nil && raddr.Zone == "" && (raddr.IP.IsLinkLocalUnicast()) {
		return nil, operr("dial", network, laddr, raddr, os.NewSyscallError("connect", syscall.EINVAL))
	}
	r := copyAddr(raddr)
	s := &sock{netw: network, remote: &r}
	if laddr != nil {
		s.local = copyAddr(laddr)
	}
	if len(r.IP) == 0 || anyIP(r.IP) {
		r.IP = net.IP{127, 0, 0, 1}
	}
	if s.local.IP == nil {
		if r.IP.To4() != nil {
			s.local.IP = net.IP{127, 0, 0, 1}
		} else {
			s.local.IP = net.IPv6loopback
		}
	}
	if s.local.Port == 0 {
		s.local.Port = ephemeral()
	}
	return mkConn(s), nil
}

func net_ListenUDP(network string, laddr *net.UDPAddr) (*net.UDPConn, error) {
	if laddr == nil {
		laddr = &net.UDPAddr{}
	}
	if laddr.Port != 0 && bound(laddr) {
		return nil, operr("listen", network, nil, laddr, os.NewSyscallError("bind", syscall.EADDRINUSE))
	}
	s := &sock{netw: network, local: copyAddr(laddr)}
	if s.local.IP == nil {
		s.local.IP = net.IPv6unspecified
	}
	if s.local.Port == 0 {
		s.local.Port = ephemeral()
	}
	return mkConn(s), nil
}

// ListenError: listening on this network fails.
var ListenError string

func net_ListenMulticastUDP(network string, ifi *net.Interface, g *net.UDPAddr) (*net.UDPConn, error) {
	if network == ListenError {
		return nil, operr("listen", network, nil, g, os.NewSyscallError("bind", syscall.EADDRINUSE))
	}
	if g == nil || g.IP == nil {
		return nil, operr("listen", network, nil, nil, &net.AddrError{Err: "missing address"})
	}
	if !g.IP.IsMulticast() {
		return nil, operr("listen", network, nil, g, os.NewSyscallError("setsockopt", syscall.EINVAL))
	}
	s := &sock{netw: network, local: net.UDPAddr{Port: g.Port}, group: g.IP}
	s.local.IP = append(net.IP(nil), g.IP...)
	return mkConn(s), nil
}

func (s *sock) takes(d *Dgram) bool {
	if s.closed || s.local.Port != d.To.Port {
		return false
	}
	if s.group != nil {
		return sameIP(s.group, d.To.IP)
	}
	if !anyIP(s.local.IP) && !sameIP(s.local.IP, d.To.IP) {
		return false
	}
	return s.remote == nil || sameIP(s.remote.IP, d.From.IP) && s.remote.Port == d.From.Port
}

// inet: an IPv4 socket.
func (s *sock) inet() bool {
	if s.netw == "udp" {
		return s.local.IP.To4() != nil || s.group == nil && s.remote != nil && s.remote.IP.To4() != nil
	}
	return s.netw == "udp4"
}

func (s *sock) send(b []byte, to *net.UDPAddr) (int, error) {
	if len(b) > 65507 {
		return 0, operr("write", s.netw, &s.local, to, os.NewSyscallError("write", syscall.EMSGSIZE))
	}
	if v4 := to.IP.To4() != nil || len(to.IP) == 0 || anyIP(to.IP); !v4 && s.inet() {
		return 0, operr("write", s.netw, &s.local, to, &net.AddrError{Err: "non-IPv4 address", Addr: to.IP.String()})
	} else if to.IP.To4() != nil && s.netw == "udp6" {
		return 0, operr("write", s.netw, &s.local, to, os.NewSyscallError("write", syscall.ENETUNREACH))
	}
	if SendError != nil {
		return 0, operr("write", s.netw, &s.local, to, os.NewSyscallError("write", SendError))
	}
	if SendFails != nil {
		if err := SendFails(to); err != nil {
			return 0, operr("write", s.netw, &s.local, to, os.NewSyscallError("write", err))
		}
	}
	from := copyAddr(&s.local)
	if anyIP(from.IP) {
		from.IP = net.IP{127, 0, 0, 1}
	}
	dst := copyAddr(to)
	if len(dst.IP) == 0 || anyIP(dst.IP) {
		dst.IP = net.IP{127, 0, 0, 1}
	}
	d := Dgram{From: from, To: dst, Data: append([]byte(nil), b...), s: s}
	Wire = append(Wire, d)
	for _, t := range socks {
		if t.takes(&d) {
			t.q <- d
			if t.group == nil {
				break
			}
		}
	}
	return len(b), nil
}

// Inject delivers a datagram to the socket that joined the multicast group.
func Inject(group string, from *net.UDPAddr, data []byte) bool {
	ip := net.ParseIP(group)
	for _, s := range socks {
		if !s.closed && s.group != nil && sameIP(s.group, ip) {
			s.q <- Dgram{From: copyAddr(from), To: s.local, Data: data}
			return true
		}
	}
	return false
}

func (s *sock) recv() (Dgram, error) {
	if s.closed {
		return Dgram{}, operr("read", s.netw, &s.local, s.remote, net.ErrClosed)
	}
	if s.expire {
		select {
		case d := <-s.q:
			return d, nil
		default:
			return Dgram{}, operr("read", s.netw, &s.local, s.remote, os.ErrDeadlineExceeded)
		}
	}
	select {
	case d := <-s.q:
		return d, nil
	case <-s.done:
		return Dgram{}, operr("read", s.netw, &s.local, s.remote, net.ErrClosed)
	}
}

func usable(c *connLike) error {
	if c == nil || c.s == nil {
		return syscall.EINVAL
	}
	return nil
}

func fill(b []byte, d []byte) int {
	if len(d) == 0 {
		return 0
	}
	return copy(b, d)
}

func net_conn_Write(c *connLike, b []byte) (int, error) {
	if err := usable(c); err != nil {
		return 0, err
	}
	s := c.s
	if s.closed {
		return 0, operr("write", s.netw, &s.local, s.remote, net.ErrClosed)
	}
	if s.remote == nil {
		return 0, operr("write", s.netw, &s.local, nil, os.NewSyscallError("write", syscall.EDESTADDRREQ))
	}
	return s.send(b, s.remote)
}

func net_conn_Read(c *connLike, b []byte) (int, error) {
	if err := usable(c); err != nil {
		return 0, err
	}
	d, err := c.s.recv()
	if err != nil {
		return 0, err
	}
	return fill(b, d.Data), nil
}

func net_conn_Close(c *connLike) error {
	if err := usable(c); err != nil {
		return err
	}
	if c.s.closed {
		return operr("close", c.s.netw, &c.s.local, c.s.remote, net.ErrClosed)
	}
	c.s.closed = true
	close(c.s.done)
	return nil
}

func net_conn_LocalAddr(c *connLike) net.Addr {
	if usable(c) != nil {
		return nil
	}
	a := copyAddr(&c.s.local)
	return &a
}

func net_conn_RemoteAddr(c *connLike) net.Addr {
	if usable(c) != nil || c.s.remote == nil {
		return nil
	}
	a := copyAddr(c.s.remote)
	return &a
}

func net_conn_SetDeadline(c *connLike, t time.Time) error      { return net_conn_SetReadDeadline(c, t) }
func net_conn_SetWriteDeadline(c *connLike, t time.Time) error { return usable(c) }
func net_conn_SetReadBuffer(c *connLike, n int) error          { return usable(c) }
func net_conn_SetWriteBuffer(c *connLike, n int) error         { return usable(c) }
func net_conn_SetReadDeadline(c *connLike, t time.Time) error {
	if err := usable(c); err != nil {
		return err
	}
	c.s.expire = !t.IsZero()
	return nil
}

func net_conn_File(c *connLike) (*os.File, error) {
	if err := usable(c); err != nil {
		return nil, err
	}
	return new(os.File), nil
}
func os_File_Fd(f *os.File) uintptr                         { return 9 }
func syscall_SetsockoptInt(fd, level, opt, value int) error { return nil }
func net_UDPConn_WriteToUDP(u *udpLike, b []byte, to *net.UDPAddr) (int, error) {
	var c *connLike
	if u != nil {
		c = &u.c
	}
	if err := usable(c); err != nil {
		return 0, err
	}
	s := c.s
	if s.closed {
		return 0, operr("write", s.netw, &s.local, to, net.ErrClosed)
	}
	if s.remote != nil {
		return 0, operr("write", s.netw, &s.local, to, net.ErrWriteToConnected)
	}
	if to == nil {
		return 0, operr("write", s.netw, &s.local, nil, &net.AddrError{Err: "missing address"})
	}
	return s.send(b, to)
}

func net_UDPConn_WriteTo(u *udpLike, b []byte, to net.Addr) (int, error) {
	a, ok := to.(*net.UDPAddr)
	if !ok {
		return 0, operr("write", "udp", nil, nil, syscall.EINVAL)
	}
	return net_UDPConn_WriteToUDP(u, b, a)
}

func net_UDPConn_WriteToUDPAddrPort(u *udpLike, b []byte, to netip.AddrPort) (int, error) {
	return net_UDPConn_WriteToUDP(u, b, &net.UDPAddr{IP: to.Addr().AsSlice(), Port: int(to.Port()), Zone: to.Addr().Zone()})
}

func net_UDPConn_ReadFromUDP(u *udpLike, b []byte) (int, *net.UDPAddr, error) {
	var c *connLike
	if u != nil {
		c = &u.c
	}
	if err := usable(c); err != nil {
		return 0, nil, err
	}
	d, err := c.s.recv()
	if err != nil {
		return 0, nil, err
	}
	a := copyAddr(&d.From)
	return fill(b, d.Data), &a, nil
}

func net_UDPConn_ReadFrom(u *udpLike, b []byte) (int, net.Addr, error) {
	n, a, err := net_UDPConn_ReadFromUDP(u, b)
	if a == nil {
		return n, nil, err
	}
	return n, a, err
}

func net_UDPConn_ReadFromUDPAddrPort(u *udpLike, b []byte) (int, netip.AddrPort, error) {
	n, a, err := net_UDPConn_ReadFromUDP(u, b)
	if a == nil {
		return n, netip.AddrPort{}, err
	}
	return n, a.AddrPort(), err
}

// ResolveUDPAddr of numeric addresses; a name does not resolve, except localhost.
func net_ResolveUDPAddr(network, address string) (*net.UDPAddr, error) {
	switch network {
	case "udp", "udp4", "udp6", "":
	default:
		return nil, net.UnknownNetworkError(network)
	}
	host, port, err := net.SplitHostPort(address)
	if err != nil {
		return nil, err
	}
	p, err := strconv.Atoi(port)
	if port == "" {
		p, err = 0, nil
	}
	if err != nil {
		return nil, &net.DNSError{Err: "unknown port", Name: network + "/" + port}
	}
	if p < 0 || p > 65535 {
		return nil, &net.AddrError{Err: "invalid port", Addr: port}
	}
	if host == "" {
		return &net.UDPAddr{Port: p}, nil
	}
	if host == "localhost" {
		return &net.UDPAddr{IP: net.IP{127, 0, 0, 1}, Port: p}, nil
	}
	a, err := netip.ParseAddr(host)
	if err != nil {
		return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
	}
	return &net.UDPAddr{IP: net.IP(a.AsSlice()), Port: p, Zone: a.Zone()}, nil
}

func net_LookupIP(host string) ([]net.IP, error) {
	return []net.IP{net.IP{127, 0, 0, 1}, net.IPv6loopback}, nil
}

var ifaces = []net.Interface{{Index: 1, MTU: 65536, Name: "lo", Flags: net.FlagUp | net.FlagLoopback}, {Index: 2, MTU: 1500, Name: "eth0", Flags: net.FlagUp | net.FlagMulticast}}

func net_Interfaces() ([]net.Interface, error) { return append([]net.Interface(nil), ifaces...), nil }
func net_InterfaceByName(name string) (*net.Interface, error) {
	for _, i := range ifaces {
		if i.Name == name {
			return &i, nil
		}
	}
	return nil, operr("route", "ip+net", nil, nil, &net.AddrError{Err: "no such network interface"})
}
func net_Interface_Addrs(i *net.Interface) ([]net.Addr, error) {
	return []net.Addr{&net.IPNet{IP: net.IP{10, 0, 0, 1}, Mask: net.IPMask{255, 0, 0, 0}}}, nil
}
func net_Interface_MulticastAddrs(i *net.Interface) ([]net.Addr, error) {
	return []net.Addr{&net.IPAddr{IP: net.IP{224, 0, 0, 1}}}, nil
}

var _ io.Reader
var _ = sym.Engine

// OpenSocks: how many sockets are open.
func OpenSocks() (n int) {
	for _, s := range socks {
		if !s.closed {
			n++
		}
	}
	return
}
