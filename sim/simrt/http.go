//go:build go1.21

package simrt

import (
	"errors"
	"net"
	"net/http"
	"runtime"
)

// HTTPRun replaces (*gin.Engine).Run and http.ListenAndServe: the handler is
// captured, requests are delivered by the simulation.
func HTTPRun(h http.Handler, addr ...string) error {
	s := S
	g := s.Cur()
	if g == nil {
		return errors.New("simrt: HTTPRun outside the simulation")
	}
	a := ":8080" // gin's and net/http's defaults do not matter here
	if len(addr) > 0 && addr[0] != "" {
		a = addr[0]
	}
	if s.HTTPListen != nil {
		if err := s.HTTPListen(a); err != nil {
			s.SyncPoint()
			return err
		}
	}
	s.HTTP[g.Node] = h
	var r SelRes
	Select(&r, false)
	return nil
}

func ListenAndServe(addr string, h http.Handler) error { return HTTPRun(h, addr) }

// HTTPServer replaces (*http.Server).ListenAndServe.
func HTTPServer(srv *http.Server) error {
	h := srv.Handler
	if h == nil {
		h = http.DefaultServeMux
	}
	return HTTPRun(h, srv.Addr)
}

// HTTPListener replaces (*gin.Engine).RunListener. The simulated listener only
// claims the address; requests are delivered by the simulation.
func HTTPListener(h http.Handler, l net.Listener) error {
	a := l.Addr().String()
	_ = l.Close()
	return HTTPRun(h, a)
}

// HTTPServe replaces http.Serve.
func HTTPServe(l net.Listener, h http.Handler) error {
	if h == nil {
		h = http.DefaultServeMux
	}
	return HTTPListener(h, l)
}

// HTTPServerOn replaces (*http.Server).Serve.
func HTTPServerOn(srv *http.Server, l net.Listener) error { return HTTPServe(l, srv.Handler) }

func (s *Sim) Handler(node int) http.Handler {
	h, _ := s.HTTP[node].(http.Handler)
	return h
}

func Gosched() {
	if S != nil {
		S.Yield()
	} else {
		runtime.Gosched()
	}
}
