package props

import (
	"errors"
	"strconv"
	"strings"
	"sync"
	"time"

	"verifh/fake"
	"verifh/sym"

	"github.com/go-kit/kit/metrics"
	"github.com/zhiqiangxu/qrpc"
)

// meter records what is counted or observed under which labels.
type meter struct {
	*records
	labels string
}

type records struct {
	mu     sync.Mutex
	counts map[string]int
	values map[string][]float64
	bad    bool
}

func newMeter() *meter {
	return &meter{records: &records{counts: map[string]int{}, values: map[string][]float64{}}}
}

func (m *meter) with(lvs []string) *meter {
	return &meter{records: m.records, labels: m.labels + "|" + strings.Join(lvs, "|")}
}

func (m *meter) record(v float64) {
	m.mu.Lock()
	m.counts[m.labels]++
	m.values[m.labels] = append(m.values[m.labels], v)
	m.mu.Unlock()
}

func (m *meter) count(method, err string) int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.counts["|method|"+method+"|error|"+err]
}

// method sums over all errors.
func (m *meter) method(method string) (n int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for k, c := range m.counts {
		if strings.HasPrefix(k, "|method|"+method+"|error|") {
			n += c
		}
	}
	return
}

func (m *meter) total() (n int) {
	m.mu.Lock()
	defer m.mu.Unlock()
	for _, c := range m.counts {
		n += c
	}
	return
}

type counter struct{ *meter }

func (c counter) With(lvs ...string) metrics.Counter { return counter{c.with(lvs)} }
func (c counter) Add(v float64) {
	if v != 1 {
		c.bad = true
	}
	c.record(v)
}

type histogram struct{ *meter }

func (h histogram) With(lvs ...string) metrics.Histogram { return histogram{h.with(lvs)} }
func (h histogram) Observe(v float64)                    { h.record(v) }

// measured makes a binding with some metrics.
func measured(b *qrpc.ServerBinding) (c, h *meter) {
	which := sym.Choose("metrics", 3)
	if which != 1 {
		c = newMeter()
		b.CounterMetric = counter{c}
	}
	if which != 0 {
		h = newMeter()
		b.LatencyMetric = histogram{h}
	}
	return
}

// C36Requests: requests of any kind whose handlers end in any way.
func C36Requests() {
	var b qrpc.ServerBinding
	c, h := measured(&b)
	ids := []uint64{1, 3}
	cmds := [2]uint32{5, 0xffffff}
	var hows [2]int
	var errs [2]string
	hows[0] = sym.Choose("how", 8)
	hows[1] = []int{0, 2, 6}[sym.Choose("how2", 3)]
	if hows[0] == hows[1] {
		cmds[1] = cmds[0]
	}
	for i := range hows {
		errs[i] = []string{"<nil>", "<nil>", "handler panic", "handler panic", "failed", "7", "<nil>", "late"}[hows[i]]
	}
	b.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		switch how := hows[r.RequestID/2]; how {
		case 0, 1, 2, 3:
			finish(w, r.RequestID, []int{endDone, endSilent, endPanic, endPartPanic}[how])
		case 4:
			panic(errors.New("failed"))
		case 5:
			panic(7)
		case 6:
			r.Close()
		case 7:
			finish(w, r.RequestID, endDone)
			panic("late")
		}
	})
	e := newServer(b)
	fc := e.dial()
	sym.Quiesce()
	other := e.dial()
	sym.Quiesce()
	n := 0
	for i, id := range ids {
		feed(fc, fr(id, requestFlags("kind", 0), cmds[i], []byte{1}))
		n++
		if hows[i] == 6 {
			break
		}
		sym.Quiesce()
	}
	sym.Quiesce()
	for _, m := range []*meter{c, h} {
		if m == nil {
			continue
		}
		for i := 0; i < n; i++ {
			want := 1
			if n == 2 && cmds[0] == cmds[1] && errs[0] == errs[1] {
				want = 2
			}
			sym.Assert(m.count(strconv.Itoa(int(cmds[i])), errs[i]) == want, "a request is measured once with its command and error")
		}
		lost := 0
		if m == c && hows[n-1] == 6 {
			lost = 1
		}
		failed := 0
		if lost == 1 {
			failed = m.method("writeFrames") // resetting the stream may fail
		}
		sym.Assert(m.total() == n+lost+failed && m.method("readFrames") == lost && failed <= 1, "nothing else is measured")
	}
	if h != nil {
		for _, vs := range h.values {
			for _, v := range vs {
				sym.Assert(v >= 0 && v < 1, "the latency of a request that takes no time")
			}
		}
	}
	other.EOF()
	fc.EOF()
	sym.Quiesce()
	if c != nil {
		sym.Assert(c.method("readFrames") == 2 && c.total() == n+2+c.method("writeFrames") && c.count("readFrames", "<nil>") == 0, "the end of every connection is counted once with its error")
		sym.Assert(!c.bad, "counters are incremented by one")
	}
	sym.Assert(h == nil || h.total() == n, "the end of a connection has no latency")
	sym.Reach("requests")
}

// C36Latency: the latency is the time the handler takes.
func C36Latency() {
	var b qrpc.ServerBinding
	_, h := measured(&b)
	sym.Assume(h != nil)
	kind := requestFlags("kind", 0)
	how := []int{endDone, endSilent, endPanic}[sym.Choose("how", 3)]
	b.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		time.Sleep(time.Duration(r.Payload[0]) * 100 * time.Millisecond)
		finish(w, r.RequestID, how)
	})
	e := newServer(b)
	fc := e.dial()
	feed(fc, fr(1, kind, 1, []byte{5}), fr(3, kind, 2, []byte{1}))
	sym.Quiesce()
	time.Sleep(time.Second)
	sym.Quiesce()
	text := "<nil>"
	if how == endPanic {
		text = "handler panic"
	}
	for cmd, want := range map[string]float64{"1": 0.5, "2": 0.1} {
		vs := h.values["|method|"+cmd+"|error|"+text]
		sym.Assert(len(vs) == 1 && vs[0] >= want && vs[0] < want+0.3, "the latency is the time the handler took")
	}
	sym.Reach("latency")
}

// C36Faults: failing writes and taken-over connections are counted.
func C36Faults() {
	var b qrpc.ServerBinding
	c, _ := measured(&b)
	b.Handler = qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		if r.Cmd == 2 {
			r.ConnectionInfo().SetID("x")
			return
		}
		reply(w, r)
	})
	e := newServer(b)
	e.dial() // stays
	fc := e.dial()
	sym.Quiesce()
	switch sym.Choose("fault", 2) {
	case 0:
		fc.OnWrite = func(p []byte) (int, error) { return 0, fake.OpErr("write", errBroken) }
		feed(fc, fr(1, requestFlags("kind", 0), 1, nil))
		sym.Quiesce()
		sym.Assert(fc.Closed(), "a failed write ends the connection")
		if c != nil {
			sym.Assert(c.method("writeFrames") == 1 && c.count("writeFrames", "<nil>") == 0, "a failed write is counted once with its error")
			sym.Assert(c.count("1", "<nil>") == 1 && c.method("readFrames") == 1 && c.total() == 3, "nothing else is counted")
		}
		sym.Reach("write")
	case 1:
		feed(fc, fr(1, fNB, 2, nil))
		sym.Quiesce()
		sym.Assert(c == nil || c.method("kickoff") == 0, "nothing was taken over")
		d := e.dial()
		feed(d, fr(1, fNB, 2, nil))
		sym.Quiesce()
		sym.Assert(fc.Closed() && !d.Closed(), "the older connection is ended")
		if c != nil {
			sym.Assert(c.method("kickoff") == 1 && c.method("readFrames") == 1 && c.count("2", "<nil>") == 2 && c.total() == 4, "a taken-over connection is counted once")
		}
		sym.Reach("kick")
	}
}
