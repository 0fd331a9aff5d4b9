package fake

import (
	"crypto/tls"
	"net"
	"time"
)

// OnDial and OnListen decide the outcome of net.Dial and net.Listen under the
// engine.
var (
	OnDial   func(network, addr string, timeout time.Duration) (*Conn, error)
	OnListen func(network, addr string) (net.Listener, error)
)

// The engine's model of TLS on the wire.
const (
	TLSHandshakeMark = 0x16
	TLSDataMark      = 0x17
)

// TLSHello is what an endpoint with this configuration sends first.
func TLSHello(conf *tls.Config) []byte {
	n := byte(0)
	if len(conf.ServerName) > 0 {
		n = conf.ServerName[0]
	}
	return []byte{TLSHandshakeMark, n}
}

// TLSRecord wraps data the way a TLS connection does.
func TLSRecord(b []byte) []byte {
	return append([]byte{TLSDataMark, byte(len(b) >> 8), byte(len(b))}, b...)
}

// TLSPlain unwraps a sequence of whole records.
func TLSPlain(b []byte) (p []byte, ok bool) {
	for len(b) > 0 {
		if len(b) < 3 || b[0] != TLSDataMark {
			return p, false
		}
		n := int(b[1])<<8 | int(b[2])
		if len(b) < 3+n {
			return p, false
		}
		p = append(p, b[3:3+n]...)
		b = b[3+n:]
	}
	return p, true
}

// SetReadBuffer and the others make a Conn configurable like a TCP connection.
func (c *Conn) SetReadBuffer(n int) error {
	c.mu.Lock()
	c.RBuf = n
	c.mu.Unlock()
	return c.OptErr
}

// SetWriteBuffer records the size.
func (c *Conn) SetWriteBuffer(n int) error {
	c.mu.Lock()
	c.WBuf = n
	c.mu.Unlock()
	return c.OptErr
}

// SetKeepAlive records the setting.
func (c *Conn) SetKeepAlive(on bool) error {
	c.mu.Lock()
	c.KeepAlive = on
	c.mu.Unlock()
	return c.OptErr
}

// SetKeepAlivePeriod records the period.
func (c *Conn) SetKeepAlivePeriod(d time.Duration) error {
	c.mu.Lock()
	c.KeepAlivePeriod = d
	c.mu.Unlock()
	return c.OptErr
}
