// Package net is the simulated loopback network.
package net

import (
	"net"
	"strings"
	"time"

	"alda.sim/shim/context"
	"alda.sim/world"
)

type TCPConn = world.Conn
type TCPListener = world.Listener

func tcp(network string) error {
	switch network {
	case "tcp", "tcp4", "tcp6":
		return nil
	}
	return net.UnknownNetworkError(network)
}

func Listen(network, address string) (net.Listener, error) {
	if err := tcp(network); err != nil {
		return nil, err
	}
	_, port, err := world.ParsePort(address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	l, err := world.W.Net.Listen(port)
	if err != nil {
		return nil, err
	}
	return l, nil
}
func ListenTCP(network string, a *net.TCPAddr) (*TCPListener, error) {
	port := 0
	if a != nil {
		port = a.Port
	}
	return world.W.Net.Listen(port)
}
func Dial(network, address string) (net.Conn, error) { return DialTimeout(network, address, 0) }
func DialTimeout(network, address string, limit time.Duration) (net.Conn, error) {
	if err := tcp(network); err != nil {
		return nil, err
	}
	c, err := world.W.Net.DialHost(address, int64(limit))
	if err != nil {
		return nil, err
	}
	return c, nil
}
func DialTCP(network string, laddr, raddr *net.TCPAddr) (*TCPConn, error) {
	if raddr == nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: &net.AddrError{Err: "missing address"}}
	}
	return world.W.Net.Dial(raddr.Port)
}
func ResolveTCPAddr(network, address string) (*net.TCPAddr, error) {
	host, port, err := world.ParsePort(address)
	if err != nil {
		return nil, err
	}
	if !world.IsLocal(host) {
		return nil, &net.DNSError{Err: "no such host", Name: host, IsNotFound: true}
	}
	return world.Addr(port), nil
}
func DialUDP(network string, l, r *net.UDPAddr) (*net.UDPConn, error) {
	panic("simulation: UDP is not modelled")
}
func ListenPacket(network, address string) (net.PacketConn, error) {
	panic("simulation: UDP is not modelled")
}
func Interfaces() ([]net.Interface, error) { return nil, nil }
func InterfaceAddrs() ([]net.Addr, error)  { return nil, nil }
func LookupHost(h string) ([]string, error) {
	if world.IsLocal(h) {
		return []string{"127.0.0.1"}, nil
	}
	return nil, &net.DNSError{Err: "no such host", Name: h, IsNotFound: true}
}
func LookupIP(h string) ([]net.IP, error) {
	if world.IsLocal(h) {
		return []net.IP{net.IPv4(127, 0, 0, 1)}, nil
	}
	return nil, &net.DNSError{Err: "no such host", Name: h, IsNotFound: true}
}

type Dialer struct {
	Timeout   time.Duration
	Deadline  time.Time
	LocalAddr net.Addr
	KeepAlive time.Duration
}

func (d *Dialer) Dial(n, a string) (net.Conn, error) { return DialTimeout(n, a, d.Timeout) }
func (d *Dialer) DialContext(ctx context.Context, n, a string) (net.Conn, error) {
	return DialTimeout(n, a, d.Timeout)
}

type ListenConfig struct{ KeepAlive time.Duration }

func (l *ListenConfig) Listen(ctx context.Context, n, a string) (net.Listener, error) {
	return Listen(n, a)
}

var _ = strings.Contains
