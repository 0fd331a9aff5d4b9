package props

import (
	"net"
	"time"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// handler behaviours
const (
	hReturn = iota // finishes nothing
	hAnswer        // drains the frame channel, then answers
	hStream        // answers with a stream, then drains
	hCancel        // resets
	hPanic
	nHandlers
)

func behave(mode int, running *int) qrpc.HandlerFunc {
	return func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		*running++
		defer func() { *running-- }()
		switch mode {
		case hAnswer:
			for range r.FrameCh() {
			}
			w.StartWrite(r.RequestID, 1, 0)
			w.WriteBytes([]byte{1})
			w.EndWrite()
		case hStream:
			w.StartWrite(r.RequestID, 1, qrpc.StreamFlag)
			w.EndWrite()
			w.StartWrite(r.RequestID, 1, qrpc.StreamFlag|qrpc.StreamEndFlag)
			w.EndWrite()
			for range r.FrameCh() {
			}
		case hCancel:
			w.ResetFrame(r.RequestID, 1)
		case hPanic:
			panic("handler")
		}
	}
}

// anyFrames is a sequence of frames whose flags are arbitrary and whose
// identifiers are arbitrary 64-bit values (so they may collide in any way).
func anyFrames(n int, codec bool) (fs []F) {
	for i := 0; i < n; i++ {
		fl := sym.U8("flags")
		if codec {
			sym.Assume(fl&^(fStream|fEnd|fRst|fNB|fPush|fCodec) == 0)
		} else {
			sym.Assume(fl&fCodec == 0)
		}
		fs = append(fs, F{ID: sym.U64("id"), Flags: fl, Cmd: 7, Payload: sym.BytesN("payload", i%2)})
	}
	return
}

func nFrames() int {
	if sym.Thorough() {
		return 3
	}
	return 2
}

// subDrain is a subscriber that consumes streamed pushes.
func subDrain(f *qrpc.Frame) {
	go func() {
		for range f.FrameCh() {
		}
	}()
}

// C19Server: a server is sent any frames, then the connection ends.
func C19Server() {
	running, closes := 0, 0
	mode := sym.Choose("mode", nHandlers)
	b := qrpc.ServerBinding{Handler: behave(mode, &running)}
	b.LifecycleCallbacks.OnClose = func(net.Conn) { closes++ }
	if sym.Choose("sub", 2) == 1 {
		b.SubFunc = func(ci *qrpc.ConnectionInfo, f *qrpc.Frame) { subDrain(f) }
	}
	e := newServer(b)
	fc := e.dial()
	notified := 0
	sym.Quiesce()
	e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
		ci.NotifyWhenClose(func() { notified++ })
		return true
	})
	for _, f := range anyFrames(nFrames(), false) {
		feed(fc, f)
		sym.Quiesce()
	}
	fc.EOF()
	sym.Quiesce()
	sym.Assert(running == 0, "all handlers finish once the connection has ended")
	sym.Assert(closes == 1 && notified == 1, "closing completes")
	sym.Assert(fc.Closed(), "the connection is closed")
	ended(e)
	sym.Reach("server")
}

// ended asserts that shutdown completes and nothing is left behind.
func ended(e *srvEnv) {
	sd := spawn(e.srv.Shutdown)
	sym.Quiesce()
	if !sd.Done() || !e.serves[0].Done() {
		time.Sleep(2 * time.Second) // a failing Accept is retried after a second
		sym.Quiesce()
	}
	sym.Assert(sd.Done(), "shutdown completes")
	for _, s := range e.serves {
		sym.Assert(s.Done(), "serving ends")
	}
	if sym.Symbolic() {
		sym.Assert(sym.Live() == 0, "no goroutine is left behind")
	}
}

// C19Burst: the same frames arrive in one piece together with the end.
func C19Burst() {
	running, closes := 0, 0
	mode := sym.Choose("mode", nHandlers)
	b := qrpc.ServerBinding{Handler: behave(mode, &running)}
	b.LifecycleCallbacks.OnClose = func(net.Conn) { closes++ }
	e := newServer(b)
	fc := e.dial()
	feed(fc, anyFrames(2, false)...)
	fc.EOF()
	sym.Quiesce()
	sym.Assert(running == 0, "all handlers finish once the connection has ended")
	sym.Assert(closes == 1 && fc.Closed(), "closing completes")
	ended(e)
	sym.Reach("burst")
}

// C19ServerOut: a server that has requests of its own in flight.
func C19ServerOut() {
	running, closes := 0, 0
	b := qrpc.ServerBinding{Handler: behave(hAnswer, &running)}
	b.LifecycleCallbacks.OnClose = func(net.Conn) { closes++ }
	e := newServer(b)
	fc := e.dial()
	sym.Quiesce()
	var ws []*task
	e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
		_, r1, err := ci.Request(3, 0, nil)
		sym.Assert(err == nil, "request sent")
		sw, r2, err := ci.StreamRequest(4, 0, nil)
		sym.Assert(err == nil && sw != nil, "stream request sent")
		ws = []*task{consume(r1), consume(r2)}
		return true
	})
	n := 2
	for _, f := range anyFrames(n, false) {
		feed(fc, f)
		sym.Quiesce()
	}
	fc.EOF()
	sym.Quiesce()
	for _, w := range ws {
		sym.Assert(w.Done(), "callers are released")
	}
	sym.Assert(closes == 1 && running == 0, "closing completes")
	ended(e)
	sym.Reach("out")
}

// consume waits for a response and all its frames.
func consume(r qrpc.Response) *task {
	return spawn(func() error {
		f, err := r.GetFrame()
		if err != nil {
			return err
		}
		if f.Flags.IsStream() {
			for range f.FrameCh() {
			}
		}
		return nil
	})
}

func clientUnder(mode, sub int, running *int) (*qrpc.Connection, *fake.Conn) {
	conf := qrpc.ConnectionConfig{}
	if mode < nHandlers {
		conf.Handler = behave(mode, running)
	}
	var sf qrpc.SubFunc
	if sub == 1 {
		sf = func(c *qrpc.Connection, f *qrpc.Frame) { subDrain(f) }
	}
	return newClient(conf, sf)
}

// C19Client: a client with a request in flight is sent any frames, then the
// connection ends.
func C19Client() {
	running := 0
	c, fc := clientUnder(sym.Choose("mode", nHandlers+1), sym.Choose("sub", 2), &running)
	var w *task
	if sym.Choose("stream", 2) == 1 {
		_, r, err := c.StreamRequest(3, 0, nil)
		sym.Assert(err == nil, "request sent")
		w = consume(r)
	} else {
		_, r, err := c.Request(3, 0, nil)
		sym.Assert(err == nil, "request sent")
		w = consume(r)
	}
	wait := spawnV(c.Wait)
	for _, f := range anyFrames(nFrames(), false) {
		feed(fc, f)
		sym.Quiesce()
	}
	fc.EOF()
	sym.Quiesce()
	sym.Assert(w.Done(), "the caller is released")
	sym.Assert(running == 0, "all handlers finish once the connection has ended")
	sym.Assert(wait.Done() && fc.Closed() && c.IsClosed(), "closing completes")
	if sym.Symbolic() {
		sym.Assert(sym.Live() == 0, "no goroutine is left behind")
	}
	sym.Reach("client")
}

// C19Raw: any bytes at all.
func C19Raw() {
	running := 0
	n := 17
	if sym.Thorough() {
		n = 33
	}
	b := sym.BytesN("raw", n)
	// the length field: one frame, possibly too long for the input
	sym.Assume(b[0] == 0 && b[1] == 0)
	if sym.Choose("side", 2) == 0 {
		e := newServer(qrpc.ServerBinding{Handler: behave(hAnswer, &running), MaxFrameSize: 64})
		fc := e.dial()
		fc.Feed(b)
		fc.EOF()
		sym.Quiesce()
		sym.Assert(fc.Closed() && running == 0, "closing completes")
		ended(e)
		sym.Reach("server")
	} else {
		sym.Assume(b[2] == 0)
		c, fc := clientUnder(hAnswer, 1, &running)
		wait := spawnV(c.Wait)
		fc.Feed(b)
		fc.EOF()
		sym.Quiesce()
		sym.Assert(fc.Closed() && running == 0 && wait.Done(), "closing completes")
		sym.Reach("client")
	}
}
