package props

import (
	"errors"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

var errCodec = errors.New("codec error")

// codec is a matching pair of encoder and decoder whose encodings are shorter,
// equally long (fresh or in place) or longer than the input.
type codec struct {
	mode     int
	table    [][]byte
	enc, dec int
	encErr   bool
	decErr   bool
}

const codecModes = 4

func (c *codec) Encode(p []byte) ([]byte, error) {
	c.enc++
	if c.encErr {
		return nil, errCodec
	}
	switch c.mode {
	case 0: // one-byte token
		c.table = append(c.table, append([]byte(nil), p...))
		return []byte{byte(len(c.table) - 1)}, nil
	case 1: // same length, fresh buffer
		q := make([]byte, len(p))
		for i := range p {
			q[i] = p[i] ^ 0x5a
		}
		return q, nil
	case 2: // same length, in place
		for i := range p {
			p[i] ^= 0x5a
		}
		return p, nil
	default: // longer
		q := []byte{0xa5}
		for i := range p {
			q = append(q, p[i]^0x5a)
		}
		return q, nil
	}
}

func (c *codec) Decode(p []byte) ([]byte, error) {
	c.dec++
	if c.decErr {
		return nil, errCodec
	}
	switch c.mode {
	case 0:
		if len(p) != 1 || int(p[0]) >= len(c.table) {
			return nil, errCodec
		}
		return c.table[p[0]], nil
	case 1:
		q := make([]byte, len(p))
		for i := range p {
			q[i] = p[i] ^ 0x5a
		}
		return q, nil
	case 2:
		for i := range p {
			p[i] ^= 0x5a
		}
		return p, nil
	default:
		if len(p) == 0 || p[0] != 0xa5 {
			return nil, errCodec
		}
		q := make([]byte, len(p)-1)
		for i := range q {
			q[i] = p[i+1] ^ 0x5a
		}
		return q, nil
	}
}

// C04RoundTrip: request and response through a client and a server with
// matching codecs; each side flags its payload, sends it plain, or hands in
// already compressed bytes.
func C04RoundTrip() {
	k := &codec{mode: sym.Choose("mode", codecModes)}
	req, resp := sym.Bytes("req", 3), sym.Bytes("resp", 2)
	reqCodec := sym.Choose("reqcodec", 2)
	respCodec := sym.Choose("respcodec", 3)
	var got, echoed []byte
	calls := 0
	e := newServer(qrpc.ServerBinding{Codec: k, Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		calls++
		got = r.Payload
		switch respCodec {
		case 2:
			// handed in already encoded
			z := append([]byte(nil), resp...)
			z, err := k.Encode(z)
			k.enc--
			sym.Assert(err == nil, "encoded")
			w.StartWrite(r.RequestID, 1, 0)
			w.WriteBytes(z)
			sym.Assert(w.EndWriteCompressed() == nil, "compressed response sent")
		default:
			w.StartWrite(r.RequestID, 1, qrpc.FrameFlag(respCodec)*fCodec)
			w.WriteBytes(resp)
			sym.Assert(w.EndWrite() == nil, "response sent")
		}
	})})
	a, b := fake.Pipe()
	e.lns[0].Dial(b)
	c, err := qrpc.NewConnection("fake", qrpc.ConnectionConfig{Codec: k, OverlayNetwork: dialer(a)}, nil)
	sym.Assert(err == nil, "connected")
	if respCodec == 2 {
		sym.Assume(len(resp) > 0)
	}
	orig := append([]byte(nil), req...)
	_, r, err := c.Request(5, qrpc.FrameFlag(reqCodec)*fCodec, req)
	sym.Assert(err == nil, "request sent")
	t := spawn(func() error {
		f, err := r.GetFrame()
		if err == nil {
			echoed = f.Payload
		}
		return err
	})
	sym.Quiesce()
	sym.Assert(sym.EqBytes(req, orig), "the caller's payload is not modified")
	sym.Assert(calls == 1 && sym.EqBytes(got, orig), "handler gets the original payload")
	sym.Assert(t.Done() && t.Err() == nil && sym.EqBytes(echoed, resp), "caller gets the original response")
	// what travelled
	f1, ok1 := fake.Dec(a.Out())
	f2, ok2 := fake.Dec(b.Out())
	sym.Assert(ok1 && ok2 && len(f1) == 1 && len(f2) == 1, "one frame each way")
	wantEnc, wantDec := 0, 0
	if reqCodec == 1 && len(req) > 0 {
		wantEnc++
		if k.mode == 3 {
			sym.Assert(f1[0].Flags&fCodec == 0 && sym.EqBytes(f1[0].Payload, orig), "longer encoding is sent plain")
		} else {
			sym.Assert(f1[0].Flags&fCodec != 0, "encoded payload is flagged")
			wantDec++
		}
	} else {
		sym.Assert(f1[0].Flags&fCodec == 0 && sym.EqBytes(f1[0].Payload, orig), "plain payload is sent as is")
	}
	if respCodec == 2 {
		wantDec++
		sym.Assert(f2[0].Flags&fCodec != 0, "compressed payload is flagged")
	} else if respCodec == 1 && len(resp) > 0 {
		wantEnc++
		if k.mode == 3 {
			sym.Assert(f2[0].Flags&fCodec == 0, "longer encoding is sent plain")
		} else {
			sym.Assert(f2[0].Flags&fCodec != 0, "encoded payload is flagged")
			wantDec++
		}
	} else {
		sym.Assert(f2[0].Flags&fCodec == 0 && sym.EqBytes(f2[0].Payload, resp), "plain payload is sent as is")
	}
	sym.Assert(k.enc == wantEnc, "only flagged non-empty payloads are encoded")
	sym.Assert(k.dec == wantDec, "only encoded payloads are decoded")
	sym.Reach("roundtrip")
}

// C04NoCodecSend: sending with the codec flag where no codec is configured.
func C04NoCodecSend() {
	p := sym.Bytes("p", 2)
	flags := uint8(fCodec) | sym.U8("flags")&(fNB|fPush)
	switch sym.Choose("side", 3) {
	case 0:
		c, fc := newClient(qrpc.ConnectionConfig{}, nil)
		_, _, err := c.Request(5, qrpc.FrameFlag(flags), p)
		if len(p) == 0 {
			sym.Assert(err == nil && len(fc.Out()) == 16 && frames(fc, "empty")[0].Flags&fCodec == 0, "empty payload is sent plain")
		} else {
			sym.Assert(err == qrpc.ErrNoCodec, "client: no-codec error")
			sym.Assert(len(fc.Out()) == 0, "client: nothing sent")
		}
		// the connection remains usable
		id, _, err := c.Request(6, 0, []byte{1})
		sym.Assert(err == nil, "client: next request sent")
		fs := frames(fc, "client")
		sym.Assert(same(fs[len(fs)-1], fr(id, 0, 6, []byte{1})), "client: next request intact")
		sym.Reach("client")
	case 1:
		c, fc := newClient(qrpc.ConnectionConfig{}, nil)
		w, _, err := c.StreamRequest(5, 0, nil)
		sym.Assert(err == nil, "stream request sent")
		n := len(fc.Out())
		c2, fc2 := newClient(qrpc.ConnectionConfig{}, nil)
		_, _, err = c2.StreamRequest(5, qrpc.FrameFlag(fCodec), p)
		if len(p) > 0 {
			sym.Assert(err == qrpc.ErrNoCodec && len(fc2.Out()) == 0, "stream: no-codec error, nothing sent")
		}
		w.StartWrite(6)
		w.WriteBytes(p)
		sym.Assert(w.EndWrite(true) == nil && len(fc.Out()) == n+16+len(p), "stream continuation without the flag sent")
		sym.Reach("stream")
	case 2:
		e := newServer(qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
			w.StartWrite(r.RequestID, 1, qrpc.FrameFlag(flags))
			w.WriteBytes(p)
			err := w.EndWrite()
			if len(p) == 0 {
				sym.Assert(err == nil, "server: empty payload sent plain")
				return
			}
			sym.Assert(err == qrpc.ErrNoCodec, "server: no-codec error")
			w.StartWrite(r.RequestID, 2, 0)
			sym.Assert(w.EndWrite() == nil, "server: plain response sent")
		})})
		c := e.dial()
		feed(c, fr(1, fNB*uint8(sym.Choose("nb", 2)), 5, nil))
		sym.Quiesce()
		fs := frames(c, "server")
		if len(p) == 0 {
			sym.Assert(fs[0].Flags == flags&^fCodec && len(fs[0].Payload) == 0, "server: flag cleared")
		} else {
			sym.Assert(len(fs) == 1 && fs[0].Cmd == 2 && len(fs[0].Payload) == 0, "server: only the plain response on the wire")
		}
		sym.Reach("server")
	}
}

// C04NoCodecRecv: receiving an undecodable payload.
func C04NoCodecRecv() {
	p := sym.BytesN("p", 1+sym.Choose("n", 2))
	flags := uint8(fCodec) | sym.U8("flags")&(fNB|fPush)
	fails := sym.Choose("codec", 2) == 1
	k := &codec{decErr: true}
	if sym.Choose("side", 2) == 0 {
		var got []F
		pushed := 0
		b := qrpc.ServerBinding{SubFunc: func(*qrpc.ConnectionInfo, *qrpc.Frame) { pushed++ }}
		if fails {
			b.Codec = k
		}
		e := newServer(recorder(&got, b))
		c := e.dial()
		feed(c, fr(1, flags, 5, p))
		sym.Quiesce()
		sym.Assert(len(got) == 0 && pushed == 0, "server: undecodable frame not delivered")
		sym.Assert(c.Closed(), "server: connection ended")
		sym.Reach("server")
		return
	}
	pushed := 0
	conf := qrpc.ConnectionConfig{}
	if fails {
		conf.Codec = k
	}
	c, fc := newClient(conf, func(*qrpc.Connection, *qrpc.Frame) { pushed++ })
	id, r, err := c.Request(1, 0, nil)
	sym.Assert(err == nil, "request sent")
	feed(fc, fr(id, flags, 5, p))
	t := spawn(func() error { _, err := r.GetFrame(); return err })
	sym.Quiesce()
	sym.Assert(t.Done() && t.Err() != nil && pushed == 0, "client: undecodable frame not delivered")
	sym.Assert(fc.Closed(), "client: connection ended")
	sym.Reach("client")
}
