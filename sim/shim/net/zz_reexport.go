// Code generated by genshim; DO NOT EDIT.

package net

import (
	x_alda_sim_shim_os "alda.sim/shim/os"
	real "net"
)

type Addr = real.Addr
type AddrError = real.AddrError
type Buffers = real.Buffers

var CIDRMask = real.CIDRMask

type Conn = real.Conn
type DNSConfigError = real.DNSConfigError
type DNSError = real.DNSError

var DefaultResolver = real.DefaultResolver

func DialIP(network string, laddr *IPAddr, raddr *IPAddr) (*IPConn, error) {
	panic("simulation: net.DialIP is not modelled")
}
func DialUnix(network string, laddr *UnixAddr, raddr *UnixAddr) (*UnixConn, error) {
	panic("simulation: net.DialUnix is not modelled")
}

var ErrClosed = real.ErrClosed
var ErrWriteToConnected = real.ErrWriteToConnected

type Error = real.Error

func FileConn(f *x_alda_sim_shim_os.File) (c Conn, err error) {
	panic("simulation: net.FileConn is not modelled")
}
func FileListener(f *x_alda_sim_shim_os.File) (ln Listener, err error) {
	panic("simulation: net.FileListener is not modelled")
}
func FilePacketConn(f *x_alda_sim_shim_os.File) (c PacketConn, err error) {
	panic("simulation: net.FilePacketConn is not modelled")
}

const FlagBroadcast = real.FlagBroadcast
const FlagLoopback = real.FlagLoopback
const FlagMulticast = real.FlagMulticast
const FlagPointToPoint = real.FlagPointToPoint
const FlagRunning = real.FlagRunning
const FlagUp = real.FlagUp

type Flags = real.Flags
type HardwareAddr = real.HardwareAddr
type IP = real.IP
type IPAddr = real.IPAddr
type IPConn = real.IPConn
type IPMask = real.IPMask
type IPNet = real.IPNet

var IPv4 = real.IPv4
var IPv4Mask = real.IPv4Mask
var IPv4allrouter = real.IPv4allrouter
var IPv4allsys = real.IPv4allsys
var IPv4bcast = real.IPv4bcast

const IPv4len = real.IPv4len

var IPv4zero = real.IPv4zero
var IPv6interfacelocalallnodes = real.IPv6interfacelocalallnodes

const IPv6len = real.IPv6len

var IPv6linklocalallnodes = real.IPv6linklocalallnodes
var IPv6linklocalallrouters = real.IPv6linklocalallrouters
var IPv6loopback = real.IPv6loopback
var IPv6unspecified = real.IPv6unspecified
var IPv6zero = real.IPv6zero

type Interface = real.Interface

func InterfaceByIndex(index int) (*Interface, error) {
	panic("simulation: net.InterfaceByIndex is not modelled")
}
func InterfaceByName(name string) (*Interface, error) {
	panic("simulation: net.InterfaceByName is not modelled")
}

type InvalidAddrError = real.InvalidAddrError

var JoinHostPort = real.JoinHostPort

type KeepAliveConfig = real.KeepAliveConfig

func ListenIP(network string, laddr *IPAddr) (*IPConn, error) {
	panic("simulation: net.ListenIP is not modelled")
}
func ListenMulticastUDP(network string, ifi *Interface, gaddr *UDPAddr) (*UDPConn, error) {
	panic("simulation: net.ListenMulticastUDP is not modelled")
}
func ListenUDP(network string, laddr *UDPAddr) (*UDPConn, error) {
	panic("simulation: net.ListenUDP is not modelled")
}
func ListenUnix(network string, laddr *UnixAddr) (*UnixListener, error) {
	panic("simulation: net.ListenUnix is not modelled")
}
func ListenUnixgram(network string, laddr *UnixAddr) (*UnixConn, error) {
	panic("simulation: net.ListenUnixgram is not modelled")
}

type Listener = real.Listener

func LookupAddr(addr string) (names []string, err error) {
	panic("simulation: net.LookupAddr is not modelled")
}
func LookupCNAME(host string) (cname string, err error) {
	panic("simulation: net.LookupCNAME is not modelled")
}
func LookupMX(name string) ([]*MX, error) { panic("simulation: net.LookupMX is not modelled") }
func LookupNS(name string) ([]*NS, error) { panic("simulation: net.LookupNS is not modelled") }
func LookupPort(network string, service string) (port int, err error) {
	panic("simulation: net.LookupPort is not modelled")
}
func LookupSRV(service string, proto string, name string) (cname string, addrs []*SRV, err error) {
	panic("simulation: net.LookupSRV is not modelled")
}
func LookupTXT(name string) ([]string, error) { panic("simulation: net.LookupTXT is not modelled") }

type MX = real.MX
type NS = real.NS
type OpError = real.OpError
type PacketConn = real.PacketConn

var ParseCIDR = real.ParseCIDR

type ParseError = real.ParseError

var ParseIP = real.ParseIP
var ParseMAC = real.ParseMAC

func Pipe() (Conn, Conn) { panic("simulation: net.Pipe is not modelled") }
func ResolveIPAddr(network string, address string) (*IPAddr, error) {
	panic("simulation: net.ResolveIPAddr is not modelled")
}
func ResolveUDPAddr(network string, address string) (*UDPAddr, error) {
	panic("simulation: net.ResolveUDPAddr is not modelled")
}
func ResolveUnixAddr(network string, address string) (*UnixAddr, error) {
	panic("simulation: net.ResolveUnixAddr is not modelled")
}

type Resolver = real.Resolver
type SRV = real.SRV

var SplitHostPort = real.SplitHostPort

type TCPAddr = real.TCPAddr

var TCPAddrFromAddrPort = real.TCPAddrFromAddrPort

type UDPAddr = real.UDPAddr

var UDPAddrFromAddrPort = real.UDPAddrFromAddrPort

type UDPConn = real.UDPConn
type UnixAddr = real.UnixAddr
type UnixConn = real.UnixConn
type UnixListener = real.UnixListener
type UnknownNetworkError = real.UnknownNetworkError
