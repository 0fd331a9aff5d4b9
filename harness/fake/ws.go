package fake

import (
	"bufio"
	"net"
	_ "unsafe" // linkname

	"github.com/gorilla/websocket"
)

//go:linkname wsNewConn github.com/gorilla/websocket.newConn
func wsNewConn(conn net.Conn, isServer bool, rbuf, wbuf int, pool websocket.BufferPool, br *bufio.Reader, wb []byte) *websocket.Conn

// NewWebsocket is an established websocket over c.
func NewWebsocket(c net.Conn, isServer bool) *websocket.Conn {
	return wsNewConn(c, isServer, 0, 0, nil, nil, nil)
}

// WSFrame encodes a websocket frame.
func WSFrame(fin bool, opcode byte, masked bool, key [4]byte, p []byte) []byte {
	b := []byte{opcode, 0}
	if fin {
		b[0] |= 0x80
	}
	switch {
	case len(p) < 126:
		b[1] = byte(len(p))
	default:
		b[1] = 126
		b = append(b, byte(len(p)>>8), byte(len(p)))
	}
	if masked {
		b[1] |= 0x80
		b = append(b, key[:]...)
		for i, x := range p {
			b = append(b, x^key[i&3])
		}
		return b
	}
	return append(b, p...)
}

// WSMsg is a decoded websocket message.
type WSMsg struct {
	Opcode byte
	Data   []byte
}

// WSDec decodes messages made of whole frames.
func WSDec(b []byte) (ms []WSMsg, masked, ok bool) {
	more := false
	for len(b) > 0 {
		if len(b) < 2 {
			return ms, masked, false
		}
		op, fin, n := b[0]&0x7f, b[0]&0x80 != 0, int(b[1]&0x7f)
		masked = b[1]&0x80 != 0
		b = b[2:]
		if n == 126 {
			if len(b) < 2 {
				return ms, masked, false
			}
			n = int(b[0])<<8 | int(b[1])
			b = b[2:]
		} else if n == 127 {
			return ms, masked, false
		}
		var key [4]byte
		if masked {
			if len(b) < 4 {
				return ms, masked, false
			}
			copy(key[:], b)
			b = b[4:]
		}
		if len(b) < n {
			return ms, masked, false
		}
		p := make([]byte, n)
		for i := range p {
			p[i] = b[i] ^ key[i&3]
		}
		b = b[n:]
		if more {
			if op != 0 {
				return ms, masked, false
			}
			m := &ms[len(ms)-1]
			m.Data = append(m.Data, p...)
		} else {
			ms = append(ms, WSMsg{op, p})
		}
		more = !fin
	}
	return ms, masked, !more
}
