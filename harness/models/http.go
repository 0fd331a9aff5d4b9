package models

import (
	"bufio"
	"crypto/tls"
	"errors"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"verifh/fake"

	"github.com/gorilla/websocket"
)

// HTTP and the websocket handshake: a server reads a request head, dispatches
// it by exact path and either upgrades the connection or answers and closes it.
// The request and response heads are those of the wire format, reduced to the
// fields that matter.

var (
	httpMu  sync.Mutex
	muxes   = map[*http.ServeMux]map[string]func(http.ResponseWriter, *http.Request){}
	servers = map[*http.Server]*httpSt{}
)

type httpSt struct {
	closed bool
	lns    []net.Listener
	conns  map[net.Conn]bool
}

func httpState(s *http.Server) *httpSt {
	st := servers[s]
	if st == nil {
		st = &httpSt{conns: map[net.Conn]bool{}}
		servers[s] = st
	}
	return st
}

// MuxHandleFunc models (*http.ServeMux).HandleFunc.
func MuxHandleFunc(m *http.ServeMux, pattern string, h func(http.ResponseWriter, *http.Request)) {
	httpMu.Lock()
	defer httpMu.Unlock()
	if muxes[m] == nil {
		muxes[m] = map[string]func(http.ResponseWriter, *http.Request){}
	}
	if muxes[m][pattern] != nil {
		panic("http: multiple registrations for " + pattern)
	}
	muxes[m][pattern] = h
}

// MuxHandle models (*http.ServeMux).Handle.
func MuxHandle(m *http.ServeMux, pattern string, h http.Handler) {
	MuxHandleFunc(m, pattern, h.ServeHTTP)
}

// MuxServe models (*http.ServeMux).ServeHTTP.
func MuxServe(m *http.ServeMux, w http.ResponseWriter, r *http.Request) {
	httpMu.Lock()
	h := muxes[m][r.URL.Path]
	httpMu.Unlock()
	if h == nil {
		w.WriteHeader(404)
		return
	}
	h(w, r)
}

// response is the ResponseWriter of the model.
type response struct {
	s        *http.Server
	c        net.Conn
	header   http.Header
	status   int
	body     []byte
	hijacked bool
}

func (w *response) Header() http.Header { return w.header }

func (w *response) Write(b []byte) (int, error) {
	w.WriteHeader(200)
	w.body = append(w.body, b...)
	return len(b), nil
}

func (w *response) WriteHeader(code int) {
	if w.status == 0 {
		w.status = code
	}
}

func (w *response) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	w.hijacked = true
	httpMu.Lock()
	delete(httpState(w.s).conns, w.c)
	httpMu.Unlock()
	return w.c, bufio.NewReadWriter(bufio.NewReader(w.c), bufio.NewWriter(w.c)), nil
}

// head reads up to the empty line that ends a request or response head.
func head(c net.Conn) (lines []string, err error) {
	var b []byte
	var one [1]byte
	for !strings.HasSuffix(string(b), "\r\n\r\n") {
		n, err := c.Read(one[:])
		b = append(b, one[:n]...)
		if err != nil {
			return nil, err
		}
		if len(b) > 4096 {
			return nil, errors.New("http: head too large")
		}
	}
	return strings.Split(string(b[:len(b)-4]), "\r\n"), nil
}

func httpServeConn(s *http.Server, c net.Conn) {
	hijacked := false
	defer func() {
		httpMu.Lock()
		delete(httpState(s).conns, c)
		httpMu.Unlock()
		if !hijacked {
			c.Close()
		}
	}()
	if t, ok := c.(*tls.Conn); ok && TLSHandshake(t) != nil {
		return
	}
	lines, err := head(c)
	if err != nil {
		return
	}
	first := strings.Split(lines[0], " ")
	if len(first) != 3 {
		c.Write([]byte("HTTP/1.1 400 Bad Request\r\n\r\n"))
		return
	}
	r := &http.Request{Method: first[0], URL: &url.URL{Path: first[1]}, Header: http.Header{}}
	for _, l := range lines[1:] {
		if i := strings.Index(l, ": "); i > 0 {
			r.Header[l[:i]] = append(r.Header[l[:i]], l[i+2:])
		}
	}
	w := &response{s: s, c: c, header: http.Header{}}
	func() {
		defer func() { recover() }()
		s.Handler.ServeHTTP(w, r)
	}()
	hijacked = w.hijacked
	if !hijacked {
		w.WriteHeader(200)
		st := "200"
		if w.status != 200 {
			st = "400"
		}
		c.Write([]byte("HTTP/1.1 " + st + " x\r\n\r\n"))
	}
}

// HTTPServe models (*http.Server).Serve.
func HTTPServe(s *http.Server, l net.Listener) error {
	httpMu.Lock()
	st := httpState(s)
	if st.closed {
		httpMu.Unlock()
		l.Close()
		return http.ErrServerClosed
	}
	st.lns = append(st.lns, l)
	httpMu.Unlock()
	defer l.Close()
	for {
		c, err := l.Accept()
		if err != nil {
			httpMu.Lock()
			closed := st.closed
			httpMu.Unlock()
			if closed {
				return http.ErrServerClosed
			}
			if ne, ok := err.(net.Error); ok && ne.Temporary() {
				time.Sleep(5 * time.Millisecond)
				continue
			}
			return err
		}
		httpMu.Lock()
		st.conns[c] = true
		httpMu.Unlock()
		go httpServeConn(s, c)
	}
}

// HTTPClose models (*http.Server).Close.
func HTTPClose(s *http.Server) error {
	httpMu.Lock()
	st := httpState(s)
	st.closed = true
	lns := st.lns
	var cs []net.Conn
	for c := range st.conns {
		cs = append(cs, c)
	}
	httpMu.Unlock()
	var err error
	for _, l := range lns {
		if e := l.Close(); e != nil {
			err = e
		}
	}
	for _, c := range cs {
		c.Close()
	}
	return err
}

func has(h http.Header, k, v string) bool {
	for _, x := range h[k] {
		if strings.EqualFold(x, v) {
			return true
		}
	}
	return false
}

// WSUpgrade models (*websocket.Upgrader).Upgrade.
func WSUpgrade(u *websocket.Upgrader, w http.ResponseWriter, r *http.Request, h http.Header) (*websocket.Conn, error) {
	refuse := func(status int, text string) (*websocket.Conn, error) {
		w.WriteHeader(status)
		return nil, websocket.HandshakeError{}
	}
	if !has(r.Header, "Connection", "upgrade") || !has(r.Header, "Upgrade", "websocket") || r.Method != "GET" ||
		!has(r.Header, "Sec-WebSocket-Version", "13") || len(r.Header["Sec-WebSocket-Key"]) == 0 {
		return refuse(400, "bad handshake")
	}
	if u.CheckOrigin != nil && !u.CheckOrigin(r) {
		return refuse(403, "origin not allowed")
	}
	hj, ok := w.(http.Hijacker)
	if !ok {
		return refuse(500, "no hijacker")
	}
	c, _, err := hj.Hijack()
	if err != nil {
		return refuse(500, err.Error())
	}
	if _, err := c.Write([]byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\n\r\n")); err != nil {
		c.Close()
		return nil, err
	}
	return fake.NewWebsocket(c, true), nil
}

// WSDial models (*websocket.Dialer).Dial.
func WSDial(d *websocket.Dialer, address string, h http.Header) (*websocket.Conn, *http.Response, error) {
	secure := strings.HasPrefix(address, "wss://")
	if !secure && !strings.HasPrefix(address, "ws://") {
		return nil, nil, errors.New("malformed ws or wss URL")
	}
	rest := address[strings.Index(address, "://")+3:]
	path := "/"
	if i := strings.Index(rest, "/"); i >= 0 {
		rest, path = rest[:i], rest[i:]
	}
	hostPort := rest
	if !strings.Contains(hostPort, ":") {
		if secure {
			hostPort += ":443"
		} else {
			hostPort += ":80"
		}
	}
	var nc net.Conn
	var err error
	if d.NetDial != nil {
		nc, err = d.NetDial("tcp", hostPort)
	} else {
		nc, err = netDial("tcp", hostPort, 0)
	}
	if err != nil {
		return nil, nil, err
	}
	raw := nc
	if secure {
		conf := &tls.Config{ServerName: rest}
		if d.TLSClientConfig != nil {
			conf = d.TLSClientConfig
			if conf.ServerName == "" {
				conf = &tls.Config{ServerName: rest, InsecureSkipVerify: conf.InsecureSkipVerify}
			}
		}
		tc := tls.Client(nc, conf)
		nc = tc
		if err := TLSHandshake(tc); err != nil {
			raw.Close()
			return nil, nil, err
		}
	}
	req := "GET " + path + " HTTP/1.1\r\nHost: " + rest + "\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Key: x\r\nSec-WebSocket-Version: 13\r\n\r\n"
	if _, err := nc.Write([]byte(req)); err != nil {
		raw.Close()
		return nil, nil, err
	}
	lines, err := head(nc)
	if err != nil {
		raw.Close()
		return nil, nil, err
	}
	if !strings.HasPrefix(lines[0], "HTTP/1.1 101 ") {
		raw.Close()
		return nil, nil, websocket.ErrBadHandshake
	}
	return fake.NewWebsocket(nc, false), nil, nil
}
