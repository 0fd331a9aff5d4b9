package props

import (
	"context"
	"time"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// C41Reader: two readers, one after the other, each asking for a few pieces of
// what a connection delivers, in any cut.
func C41Reader() {
	for k := 0; k < 2; k++ {
		fc := fake.NewConn()
		data := sym.BytesN("data", 9)
		have := 9
		if k == 0 {
			have = sym.Choose("have", 10)
		}
		fc.OneByte = sym.Choose("onebyte", 2) == 1
		cut := 0
		if have > 0 && k == 0 {
			cut = sym.Choose("cut", have)
		}
		fc.Feed(data[:cut])
		r := qrpc.NewReader(nil, fc)
		want := []int{4, 0, 1, 4}
		whole := sym.Choose("whole", 2) == 1
		if whole {
			want = []int{0, 7, 2}
		}
		pos, failed := 0, false
		t := spawn(func() error {
			for _, n := range want {
				var b []byte
				var err error
				if n == 4 && !whole {
					var v uint32
					v, err = r.ReadUint32()
					b = be32(v)
				} else {
					b = make([]byte, n)
					err = r.ReadBytes(b)
				}
				if err != nil {
					sym.Assert(pos+n > have, "reading fails only where the connection ends")
					failed = true
					return err
				}
				sym.Assert(pos+n <= have && sym.EqBytes(b, data[pos:pos+n]), "the next bytes are read")
				pos += n
			}
			return nil
		})
		sym.Quiesce()
		fc.Feed(data[cut:have])
		sym.Quiesce()
		sym.Assert(t.Done() == (have == 9), "reading waits for the bytes")
		if sym.Choose("break", 2) == 1 {
			fc.FailRead(errBroken)
		} else {
			fc.EOF()
		}
		sym.Quiesce()
		sym.Assert(t.Done() && failed == (have < 9), "and ends with the connection")
		r.Finalize()
	}
	sym.Reach("reader")
}

// C41ReadTimeout: bytes that arrive before and after the timeout.
func C41ReadTimeout() {
	fc := fake.NewConn()
	fc.Deadlines = true
	data := sym.BytesN("data", 4)
	timeout := []int{qrpc.ReadNoTimeout, 0, 2, 4}[sym.Choose("timeout", 4)]
	max := []int{0, 3}[sym.Choose("max", 2)]
	late := sym.Choose("late", 2) == 1 // set while reading: for the next one
	r := qrpc.NewReaderWithTimeout(context.Background(), fc, timeout)
	b := make([]byte, 3)
	t := spawn(func() error { return r.ReadBytesWithMaxTimeout(b, max) })
	sym.Quiesce()
	if late {
		r.SetReadTimeout(1)
	}
	fc.Feed(data[:1])
	pause := 1 + 2*sym.Choose("pause", 3)
	time.Sleep(time.Duration(pause) * time.Second)
	fc.Feed(data[1:])
	sym.Quiesce()
	limit := timeout
	if max > 0 && limit > max {
		limit = max
	}
	if limit == pause {
		return // a tie
	}
	sym.Assert(t.Done(), "reading ends")
	if limit > 0 && pause > limit {
		sym.Assert(t.Err() != nil, "the timeout covers the whole piece")
		sym.Reach("timeout")
		return
	}
	sym.Assert(t.Err() == nil && sym.EqBytes(b, data[:3]), "bytes in time are read")
	if !late {
		r.SetReadTimeout(1)
	}
	b = b[:1]
	sym.Assert(r.ReadBytes(b) == nil && sym.EqBytes(b, data[3:]), "what follows is kept")
	// bytes that arrive after the old timeout has passed and the new one has not
	next := []int{1, 20, 0, qrpc.ReadNoTimeout}[sym.Choose("next", 4)]
	if next != 1 {
		r.SetReadTimeout(next)
	}
	t = spawn(func() error { return r.ReadBytes(b) })
	time.Sleep(9 * time.Second)
	fc.Feed([]byte{7})
	sym.Quiesce()
	sym.Assert(t.Done() && (t.Err() != nil) == (next == 1), "a new timeout holds for the next read")
	sym.Assert(next == 1 || b[0] == 7, "and the next byte is read")
	sym.Reach("in time")
}

// C41Stall: a network that takes some bytes, nothing for a while, and the rest.
func C41Stall() {
	fc := fake.NewConn()
	fc.Deadlines = true
	data := sym.BytesN("data", 5)
	timeout := []int{qrpc.WriteNoTimeout, 0, 2, 7}[sym.Choose("timeout", 4)]
	stall := []int{1, 4, 6, 10}[sym.Choose("stall", 4)]
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	fc.Hold, fc.Room = true, sym.Choose("room", 4)
	room := fc.Room
	early := sym.Choose("cancel", 2) == 1
	w := qrpc.NewWriterWithTimeout(ctx, fc, timeout)
	n := 0
	var took time.Duration
	start := time.Now()
	t := spawn(func() error {
		var err error
		n, err = w.Write(data)
		took = time.Since(start)
		return err
	})
	sym.Quiesce()
	if early {
		cancel()
	}
	time.Sleep(time.Duration(stall)*time.Second + 500*time.Millisecond)
	sym.Quiesce()
	fc.Release()
	sym.Quiesce()
	for i := 0; i < 4 && !t.Done(); i++ {
		time.Sleep(time.Second)
		sym.Quiesce()
	}
	sym.Assert(t.Done(), "a write ends")
	sym.Assert(sym.EqBytes(fc.Out(), data[:n]), "the bytes are written in order, each once, and counted")
	if timeout > 0 && stall >= timeout {
		sym.Assert(t.Err() != nil && n == room, "its own timeout ends a write")
	}
	if early && stall > 3 {
		sym.Assert(t.Err() != nil && n == room, "the end of its context ends a write")
	}
	if !early && (timeout <= 0 || stall < timeout) {
		sym.Assert(t.Err() == nil && n == len(data), "a network timeout does not end a write")
	}
	if t.Err() != nil && timeout > 0 {
		sym.Assert(took < time.Duration(timeout+2)*time.Second, "a write fails in time")
	}
	sym.Reach("stall")
}

// C41Writer: a network that takes any part of each write.
func C41Writer() {
	fc := fake.NewConn()
	data := sym.Bytes("data", 4)
	timeout := []int{qrpc.WriteNoTimeout, 0, 2, 7}[sym.Choose("timeout", 4)]
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	calls := 3
	if sym.Thorough() {
		calls = 4
	}
	fatal, waits, n, taken := false, 0, 0, 0
	cancelled, full := false, false
	fc.OnWrite = func(b []byte) (int, error) {
		n++
		sym.Assert(!fatal, "a broken connection is not written to")
		if n > calls {
			taken += len(b)
			full = true
			return len(b), nil
		}
		k := sym.Choose("accepted", len(b)+1)
		taken += k
		full = taken == len(data)
		if sym.Choose("cancel", 2) == 1 {
			cancelled = true
			cancel()
		}
		switch sym.Choose("kind", 3) {
		case 0:
			return k, nil
		case 1:
			waits += 3
			sym.AdvanceSec(3)
			return k, fake.OpErr("write", fake.TimeoutErr{})
		}
		fatal = true
		return k, fake.OpErr("write", errBroken)
	}
	w := qrpc.NewWriterWithTimeout(ctx, fc, timeout)
	if timeout < 0 {
		w = qrpc.NewWriter(ctx, fc)
	}
	k, err := w.Write(data)
	sym.Assert(k == taken && sym.EqBytes(fc.Out(), data[:k]), "the bytes are written in order, each once, and counted")
	if k < len(data) {
		sym.Assert(err != nil && (fatal || cancelled || timeout > 0 && waits > timeout), "an incomplete write fails, for a reason")
		sym.Reach("failed")
		return
	}
	sym.Assert(full && (err == nil || fatal || timeout > 0 && waits > timeout), "a complete write succeeds")
	sym.Reach("written")
}
