// Code generated by cmd/genalias; DO NOT EDIT.

package vnet

import std "net"

type Addr = std.Addr
type AddrError = std.AddrError
type Buffers = std.Buffers

var CIDRMask = std.CIDRMask

type Conn = std.Conn
type DNSConfigError = std.DNSConfigError
type DNSError = std.DNSError

var DefaultResolver = std.DefaultResolver
var DialIP = std.DialIP
var DialTCP = std.DialTCP
var DialUDP = std.DialUDP
var DialUnix = std.DialUnix
var ErrClosed = std.ErrClosed
var ErrWriteToConnected = std.ErrWriteToConnected

type Error = std.Error

var FileConn = std.FileConn
var FileListener = std.FileListener
var FilePacketConn = std.FilePacketConn

const FlagBroadcast = std.FlagBroadcast
const FlagLoopback = std.FlagLoopback
const FlagMulticast = std.FlagMulticast
const FlagPointToPoint = std.FlagPointToPoint
const FlagRunning = std.FlagRunning
const FlagUp = std.FlagUp

type Flags = std.Flags
type HardwareAddr = std.HardwareAddr
type IP = std.IP
type IPAddr = std.IPAddr
type IPConn = std.IPConn
type IPMask = std.IPMask
type IPNet = std.IPNet

var IPv4 = std.IPv4
var IPv4Mask = std.IPv4Mask
var IPv4allrouter = std.IPv4allrouter
var IPv4allsys = std.IPv4allsys
var IPv4bcast = std.IPv4bcast

const IPv4len = std.IPv4len

var IPv4zero = std.IPv4zero
var IPv6interfacelocalallnodes = std.IPv6interfacelocalallnodes

const IPv6len = std.IPv6len

var IPv6linklocalallnodes = std.IPv6linklocalallnodes
var IPv6linklocalallrouters = std.IPv6linklocalallrouters
var IPv6loopback = std.IPv6loopback
var IPv6unspecified = std.IPv6unspecified
var IPv6zero = std.IPv6zero

type Interface = std.Interface

var InterfaceAddrs = std.InterfaceAddrs
var InterfaceByIndex = std.InterfaceByIndex
var InterfaceByName = std.InterfaceByName
var Interfaces = std.Interfaces

type InvalidAddrError = std.InvalidAddrError

var JoinHostPort = std.JoinHostPort

type KeepAliveConfig = std.KeepAliveConfig
type ListenConfig = std.ListenConfig

var ListenIP = std.ListenIP
var ListenMulticastUDP = std.ListenMulticastUDP
var ListenPacket = std.ListenPacket
var ListenTCP = std.ListenTCP
var ListenUDP = std.ListenUDP
var ListenUnix = std.ListenUnix
var ListenUnixgram = std.ListenUnixgram

type Listener = std.Listener

var LookupAddr = std.LookupAddr
var LookupCNAME = std.LookupCNAME
var LookupHost = std.LookupHost
var LookupIP = std.LookupIP
var LookupMX = std.LookupMX
var LookupNS = std.LookupNS
var LookupPort = std.LookupPort
var LookupSRV = std.LookupSRV
var LookupTXT = std.LookupTXT

type MX = std.MX
type NS = std.NS
type OpError = std.OpError
type PacketConn = std.PacketConn

var ParseCIDR = std.ParseCIDR

type ParseError = std.ParseError

var ParseIP = std.ParseIP
var ParseMAC = std.ParseMAC
var Pipe = std.Pipe
var ResolveIPAddr = std.ResolveIPAddr
var ResolveTCPAddr = std.ResolveTCPAddr
var ResolveUDPAddr = std.ResolveUDPAddr
var ResolveUnixAddr = std.ResolveUnixAddr

type Resolver = std.Resolver
type SRV = std.SRV

var SplitHostPort = std.SplitHostPort

type TCPAddr = std.TCPAddr

var TCPAddrFromAddrPort = std.TCPAddrFromAddrPort

type TCPConn = std.TCPConn
type TCPListener = std.TCPListener
type UDPAddr = std.UDPAddr

var UDPAddrFromAddrPort = std.UDPAddrFromAddrPort

type UDPConn = std.UDPConn
type UnixAddr = std.UnixAddr
type UnixConn = std.UnixConn
type UnixListener = std.UnixListener
type UnknownNetworkError = std.UnknownNetworkError
