// Package vhttp replaces net/http in instrumented code: servers are reached in
// memory and the default mux belongs to one execution.
package vhttp

import (
	"context"
	"crypto/tls"
	"log"
	"net"
	"net/http"
	"time"
	"unsafe"

	"vharness/vrt"
	"vharness/vrt/vnet"
)

// DefaultServeMux mirrors http.DefaultServeMux.
var DefaultServeMux = http.NewServeMux()

var servers = map[string]*Server{}

func init() {
	vrt.ResetHooks = append(vrt.ResetHooks, func() {
		DefaultServeMux = http.NewServeMux()
		servers = map[string]*Server{}
	})
	vrt.OnFinish(func(*vrt.Exec) {
		for _, s := range servers {
			s.shut()
		}
	})
}

func Handle(pattern string, h http.Handler) { DefaultServeMux.Handle(pattern, h) }
func HandleFunc(pattern string, h func(http.ResponseWriter, *http.Request)) {
	DefaultServeMux.HandleFunc(pattern, h)
}

// ListenAndServe mirrors http.ListenAndServe.
func ListenAndServe(addr string, h http.Handler) error {
	return (&Server{Addr: addr, Handler: h}).ListenAndServe()
}

// Server mirrors http.Server.
type Server struct {
	Addr                         string
	Handler                      http.Handler
	DisableGeneralOptionsHandler bool
	TLSConfig                    *tls.Config
	ReadTimeout                  time.Duration
	ReadHeaderTimeout            time.Duration
	WriteTimeout                 time.Duration
	IdleTimeout                  time.Duration
	MaxHeaderBytes               int
	ErrorLog                     *log.Logger
	BaseContext                  func(net.Listener) context.Context
	ConnContext                  func(ctx context.Context, c net.Conn) context.Context

	done   chan struct{}
	closed bool
	race   byte
}

func (s *Server) shut() {
	if !s.closed {
		s.closed = true
		if s.done != nil {
			close(s.done)
		}
	}
}

// ListenAndServe mirrors http.Server.ListenAndServe.
func (s *Server) ListenAndServe() error {
	l, err := vnet.Listen("tcp", s.Addr)
	if err != nil {
		return err
	}
	return s.Serve(l)
}

// Serve mirrors http.Server.Serve.
func (s *Server) Serve(l net.Listener) error {
	a, _ := vnet.Norm(l.Addr().String())
	s.done = make(chan struct{})
	// What was done before serving happens before every request.
	vrt.RaceRelease(unsafe.Pointer(&s.race))
	servers[a] = s
	<-s.done
	l.Close()
	return http.ErrServerClosed
}

func (s *Server) Close() error                     { s.shut(); return nil }
func (s *Server) Shutdown(_ context.Context) error { s.shut(); return nil }
func (s *Server) RegisterOnShutdown(func())        {}
func (s *Server) SetKeepAlivesEnabled(bool)        {}

// HandlerAt returns the handler serving an address (harness use).
func HandlerAt(addr string) http.Handler {
	a, _ := vnet.Norm(addr)
	s := servers[a]
	if s == nil || s.closed {
		return nil
	}
	vrt.RaceAcquire(unsafe.Pointer(&s.race))
	if s.Handler != nil {
		return s.Handler
	}
	return DefaultServeMux
}
