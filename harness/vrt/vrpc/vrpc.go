// Package vrpc replaces net/rpc in instrumented code. Requests are dispatched by
// the real rpc.Server and encoded by the real gob codec, in the goroutine of the
// caller, over the in-memory network of vnet.
package vrpc

import (
	"bytes"
	"encoding/gob"
	"errors"
	"fmt"
	"io"
	"net"
	"net/rpc"
	"runtime"
	"runtime/debug"
	"strings"
	"unsafe"

	"vharness/vrt"
	"vharness/vrt/vnet"
)

// Client mirrors rpc.Client.
type Client struct {
	conn   *vnet.Conn_
	closed bool
	seq    uint64
}

// Dial mirrors rpc.Dial.
func Dial(network, address string) (*Client, error) {
	c, err := vnet.Dial(network, address)
	if err != nil {
		return nil, err
	}
	return NewClient(c), nil
}

// NewClient mirrors rpc.NewClient.
func NewClient(conn io.ReadWriteCloser) *Client {
	c, ok := conn.(*vnet.Conn_)
	if !ok {
		panic("vrpc: NewClient on a connection that is not in-memory")
	}
	return &Client{conn: c}
}

// Close mirrors rpc.Client.Close.
func (c *Client) Close() error {
	if e := vrt.Cur; e != nil && e.ClosePoints && !c.closed {
		vrt.Point("close", nil)
	}
	vrt.RaceOff()
	defer vrt.RaceBack()
	if c.closed {
		return rpc.ErrShutdown
	}
	c.closed = true
	return c.conn.Close()
}

// stream is a gob encoder and decoder joined by a buffer, like one direction of
// a connection. Streams are reused: type descriptions are then sent only once,
// as on a long-lived connection. The request and response headers of net/rpc
// are passed directly.
type stream struct {
	buf bytes.Buffer
	enc *gob.Encoder
	dec *gob.Decoder
}

var pool = map[string][]*stream{}

func getStream(key string) *stream {
	if l := pool[key]; len(l) > 0 && !vrt.RaceOn {
		st := l[len(l)-1]
		pool[key] = l[:len(l)-1]
		return st
	}
	st := &stream{}
	st.enc = gob.NewEncoder(&st.buf)
	st.dec = gob.NewDecoder(&st.buf)
	return st
}

// put returns a stream on which everything went well and nothing is left.
func (st *stream) put(key string) {
	if !vrt.RaceOn && st.buf.Len() == 0 {
		pool[key] = append(pool[key], st)
	}
}

type codec struct {
	key    string
	method string
	seq    uint64
	req    *stream
	reply  *stream
	header rpc.Response
	wrote  bool
	label  string
	after  func()
}

func (c *codec) ReadRequestHeader(r *rpc.Request) error {
	r.ServiceMethod, r.Seq = c.method, c.seq
	return nil
}
func (c *codec) ReadRequestBody(b interface{}) error {
	err := c.req.dec.Decode(b)
	if err == nil && b != nil {
		c.req.put(c.key + "?")
	}
	return err
}
func (c *codec) WriteResponse(r *rpc.Response, b interface{}) error {
	c.after()
	if e := vrt.Cur; e != nil && e.ReplyPoints {
		vrt.Point(c.label, nil)
	}
	c.header = *r
	if r.Error != "" {
		c.wrote = true
		return nil
	}
	c.reply = getStream(c.key + "!")
	err := c.reply.enc.Encode(b)
	c.wrote = err == nil
	return err
}
func (c *codec) Close() error { return nil }

// Call mirrors rpc.Client.Call.
func (c *Client) Call(serviceMethod string, args, reply interface{}) error {
	e := vrt.Cur
	m := serviceMethod
	if i := strings.LastIndex(m, "."); i >= 0 {
		m = m[i+1:]
	}
	to := c.conn.Remote
	ev := begin(e, to, m, args, reply)
	err := c.call(e, ev, serviceMethod, m, args, reply)
	end(e, ev, err)
	return err
}

func begin(e *vrt.Exec, to, m string, args, reply interface{}) *vrt.RPCEvent {
	vrt.RaceOff()
	defer vrt.RaceBack()
	ev := &vrt.RPCEvent{Addr: to, Method: m, Args: args, Reply: reply, At: e.Now()}
	e.AddCall(ev)
	return ev
}

func end(e *vrt.Exec, ev *vrt.RPCEvent, err error) {
	vrt.RaceOff()
	defer vrt.RaceBack()
	ev.Err = err
	ev.Ended = true
	ev.AtEnd = e.Now()
	if e.OnCallEnd != nil {
		e.OnCallEnd(ev)
	}
}

func (c *Client) call(e *vrt.Exec, ev *vrt.RPCEvent, serviceMethod, m string, args, reply interface{}) error {
	to := c.conn.Remote
	if c.closed {
		return rpc.ErrShutdown
	}
	// Wait until the server has picked the connection up.
	vrt.RaceOff()
	h, ok := c.conn.WaitServed()
	vrt.RaceBack()
	if e.CallPoints {
		vrt.Point("call "+to+" "+m, nil)
	}
	if !ok || c.conn.Closed() {
		return io.ErrUnexpectedEOF
	}
	vrt.RaceAcquire(unsafe.Pointer(&c.conn.Peer().Race))
	if e.OnCall != nil {
		vrt.RaceOff()
		e.OnCall(ev)
		vrt.RaceBack()
	}
	if e.Fault != nil && e.Fault("request", to, m) {
		return io.ErrUnexpectedEOF
	}
	c.seq++
	req := getStream(serviceMethod + "?")
	if err := req.enc.Encode(args); err != nil {
		return err
	}
	ev.Begun = true
	cd := &codec{key: serviceMethod, method: serviceMethod, seq: c.seq, req: req, label: "reply " + to + " " + m, after: func() { ev.Handled = true }}
	func() {
		fin := false
		defer func() {
			if fin {
				return
			}
			if r := recover(); r != nil {
				if !e.Dying() {
					e.SetCrash(fmt.Sprintf("node %s crashed serving %s: panic: %v", to, m, r), debug.Stack())
				}
			}
			// A panic in a handler takes the whole node process down.
			if e.IsController() {
				panic("vrpc: crash on the controller: " + e.Crash)
			}
			runtime.Goexit()
		}()
		h.(*Server).real.ServeRequest(cd)
		vrt.RaceRelease(unsafe.Pointer(&c.conn.Peer().RaceEnd))
		fin = true
	}()
	if e.Fault != nil && e.Fault("reply", to, m) {
		return io.ErrUnexpectedEOF
	}
	if c.conn.Closed() {
		return io.ErrUnexpectedEOF
	}
	if !cd.wrote {
		// The reply could not be encoded: the real server closes the connection.
		return io.ErrUnexpectedEOF
	}
	if cd.header.Error != "" {
		return rpc.ServerError(cd.header.Error)
	}
	if err := cd.reply.dec.Decode(reply); err != nil {
		return errors.New("reading body " + err.Error())
	}
	cd.reply.put(serviceMethod + "!")
	return nil
}

// Go mirrors rpc.Client.Go.
func (c *Client) Go(serviceMethod string, args, reply interface{}, done chan *rpc.Call) *rpc.Call {
	call := &rpc.Call{ServiceMethod: serviceMethod, Args: args, Reply: reply}
	if done == nil {
		done = make(chan *rpc.Call, 10)
	}
	call.Done = done
	go func() {
		call.Error = c.Call(serviceMethod, args, reply)
		select {
		case done <- call:
		default:
		}
	}()
	return call
}

// Server mirrors rpc.Server.
type Server struct{ real *rpc.Server }

// NewServer mirrors rpc.NewServer.
func NewServer() *Server { return &Server{rpc.NewServer()} }

// Receivers are the objects registered in this execution (harness use).
var Receivers []interface{}

func (s *Server) Register(rcvr interface{}) error {
	Receivers = append(Receivers, rcvr)
	return s.real.Register(rcvr)
}
func (s *Server) RegisterName(name string, rcvr interface{}) error {
	Receivers = append(Receivers, rcvr)
	return s.real.RegisterName(name, rcvr)
}

// ServeConn mirrors rpc.Server.ServeConn.
func (s *Server) ServeConn(conn io.ReadWriteCloser) {
	c, ok := conn.(*vnet.Conn_)
	if !ok || c == nil {
		panic("vrpc: ServeConn on a connection that is not in-memory")
	}
	vrt.RaceRelease(unsafe.Pointer(&c.Race))
	func() {
		vrt.RaceOff()
		defer vrt.RaceBack()
		if e := vrt.Cur; e != nil && e.AcceptPoints {
			vrt.Point("serve "+c.Local, nil)
		}
		c.Serve(s)
		c.WaitClosed()
	}()
	vrt.RaceAcquire(unsafe.Pointer(&c.RaceEnd))
}

// Accept mirrors rpc.Server.Accept.
func (s *Server) Accept(lis net.Listener) {
	for {
		c, err := lis.Accept()
		if err != nil {
			return
		}
		go s.ServeConn(c)
	}
}

// DefaultServer mirrors rpc.DefaultServer.
var DefaultServer = NewServer()

func init() {
	vrt.ResetHooks = append(vrt.ResetHooks, func() { DefaultServer, Receivers = NewServer(), nil })
}

func Register(rcvr interface{}) error                  { return DefaultServer.Register(rcvr) }
func RegisterName(name string, rcvr interface{}) error { return DefaultServer.RegisterName(name, rcvr) }
func ServeConn(conn io.ReadWriteCloser)                { DefaultServer.ServeConn(conn) }
func Accept(lis net.Listener)                          { DefaultServer.Accept(lis) }

type (
	ServerError = rpc.ServerError
	Request     = rpc.Request
	Response    = rpc.Response
	Call        = rpc.Call
	ServerCodec = rpc.ServerCodec
	ClientCodec = rpc.ClientCodec
)

var ErrShutdown = rpc.ErrShutdown

const (
	DefaultRPCPath   = rpc.DefaultRPCPath
	DefaultDebugPath = rpc.DefaultDebugPath
)
