package props

import (
	"net"

	"verifh/fake"
	"verifh/sym"

	"github.com/zhiqiangxu/qrpc"
)

// member is a server connection under observation.
type member struct {
	fc     *fake.Conn
	ci     *qrpc.ConnectionInfo
	closes int
	kicks  int
	// kickedOpen: the network connection was still open during the kick callback
	kickedOpen bool
	bound      []*task
	id         string
}

// join accepts n connections on a server with a kick callback.
func join(n int) (*srvEnv, []*member) {
	var ms []*member
	find := func(c net.Conn) *member {
		for _, m := range ms {
			if m.fc == c {
				return m
			}
		}
		return nil
	}
	b := qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		for _, m := range ms {
			if m.ci == r.ConnectionInfo() {
				m.ci.SetID(string(r.Payload))
			}
		}
		w.StartWrite(r.RequestID, 1, 0)
		w.EndWrite()
	})}
	b.LifecycleCallbacks.OnClose = func(c net.Conn) { find(c).closes++ }
	b.OnKickCB = func(w qrpc.FrameWriter) {
		// tell which connection is kicked by writing to it
		w.StartWrite(2, 99, qrpc.PushFlag)
		w.EndWrite()
	}
	e := newServer(b)
	for i := 0; i < n; i++ {
		m := &member{}
		m.fc = e.dial()
		ms = append(ms, m)
		sym.Quiesce()
		e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
			known := false
			for _, o := range ms {
				known = known || o.ci == ci
			}
			if !known {
				m.ci = ci
			}
			return true
		})
		sym.Assert(m.ci != nil, "an accepted connection is found by walking")
		m.fc.OnWrite = func(b []byte) (int, error) {
			m.kicks++
			return len(b), nil
		}
	}
	return e, ms
}

// bind starts binding.
func (m *member) bind(id string) {
	m.id = id
	m.bound = append(m.bound, spawnV(func() { m.ci.SetID(id) }))
}

var allIDs = []string{"a", "b"}

// owners asserts what must hold at rest: owner[id] is the index of the
// connection that owns it, -1 for none, -2 for any one of those that bound it.
func owners(e *srvEnv, ms []*member, live []bool, owner func(id string) int) {
	walked := map[*qrpc.ConnectionInfo]int{}
	e.srv.WalkConn(0, func(w qrpc.FrameWriter, ci *qrpc.ConnectionInfo) bool {
		walked[ci]++
		return true
	})
	for i, m := range ms {
		for _, b := range m.bound {
			sym.Assert(b.Done(), "binding terminates")
		}
		want := 0
		if live[i] {
			want = 1
		}
		sym.Assert(walked[m.ci] == want, "walking visits exactly the open connections")
		sym.Assert(m.fc.Closed() == !live[i], "exactly the kicked and closed connections are closed")
		sym.Assert(m.closes == 1-want, "closing completes")
	}
	for _, id := range allIDs {
		ci := e.srv.GetConnectionInfoByID(0, id)
		var byWalk *qrpc.ConnectionInfo
		e.srv.WalkConnByID(0, []string{id}, func(w qrpc.FrameWriter, c *qrpc.ConnectionInfo, i int) {
			sym.Assert(i == 0 && byWalk == nil, "walking by id visits each once")
			byWalk = c
		})
		sym.Assert(ci == byWalk, "both lookups agree")
		if ci != nil {
			sym.Assert(!ci.IsClosed(), "a closed connection is never returned by id lookup")
			sym.Assert(ci.GetID() == id, "lookup returns a connection with that id")
		}
		switch o := owner(id); {
		case o == -1:
			sym.Assert(ci == nil, "an id nobody owns is not found")
		case o >= 0:
			sym.Assert(ci == ms[o].ci, "lookup returns the owner of the id")
		}
	}
}

// C20Seq: every sequence of binds and closes, one at a time.
func C20Seq() {
	n := 3
	e, ms := join(n)
	live := make([]bool, n)
	for i := range live {
		live[i] = true
	}
	has := make([]bool, n)
	own := map[string]int{"a": -1, "b": -1}
	kicked := make([]int, n)
	steps := 3
	if sym.Thorough() {
		steps = 4
	}
	for s := 0; s < steps; s++ {
		i := sym.Choose("who", n)
		if sym.Choose("op", 2) == 0 {
			if has[i] {
				sym.Assume(false) // binding twice is a caller's error
			}
			has[i] = true
			id := allIDs[sym.Choose("id", 2)]
			ms[i].bind(id)
			sym.Quiesce()
			if live[i] {
				if o := own[id]; o >= 0 {
					live[o] = false
					kicked[o]++
				}
				own[id] = i
			}
		} else {
			if sym.Choose("how", 2) == 0 {
				ms[i].ci.Close()
			} else {
				ms[i].fc.EOF()
			}
			sym.Quiesce()
			live[i] = false
			if id := ms[i].id; id != "" && own[id] == i {
				own[id] = -1
			}
		}
		owners(e, ms, live, func(id string) int { return own[id] })
		for i, m := range ms {
			sym.Assert(m.kicks == kicked[i], "the kick callback runs once for each kicked connection, before it is closed")
		}
	}
	sym.Reach("seq")
}

// C20Race: two connections bind the same or different ids while one or both
// are being closed.
func C20Race() {
	e, ms := join(2)
	same := sym.Choose("same", 2) == 1
	ids := []string{"a", "b"}
	if same {
		ids[1] = "a"
	}
	closer := sym.Choose("closer", 4) // which of them are closed concurrently
	ms[0].bind(ids[0])
	ms[1].bind(ids[1])
	for i := range ms {
		if closer&(1<<i) != 0 {
			i := i
			how := sym.Choose("how", 2)
			spawnV(func() {
				if how == 0 {
					ms[i].ci.Close()
				} else {
					ms[i].fc.EOF()
				}
			})
		}
	}
	sym.Quiesce()
	live := []bool{!ms[0].fc.Closed(), !ms[1].fc.Closed()}
	for i := range ms {
		if closer&(1<<i) != 0 {
			sym.Assert(!live[i], "a closed connection is closed")
		}
	}
	if !same {
		for i := range ms {
			sym.Assert(live[i] == (closer&(1<<i) == 0), "binding another id closes nobody")
		}
	} else {
		sym.Assert(!(live[0] && live[1]), "at most one connection owns an id")
		sym.Assert(live[0] || live[1] || closer != 0, "the newest binding survives")
		sym.Assert(ms[0].kicks+ms[1].kicks <= 1, "at most one connection is kicked")
	}
	owners(e, ms, live, func(id string) int {
		for i := range ms {
			if ids[i] == id && live[i] {
				return i
			}
		}
		return -1
	})
	ended(e)
	sym.Reach("race")
}

// C20Takeover: a third connection takes an id over while its holder is closed
// in several ways at once.
func C20Takeover() {
	e, ms := join(2)
	ms[0].bind("a")
	sym.Quiesce()
	ms[1].bind("a")
	if sym.Choose("eof", 2) == 1 {
		ms[0].fc.EOF()
	}
	if sym.Choose("close", 2) == 1 {
		spawnV(func() { ms[0].ci.Close() })
	}
	sym.Quiesce()
	owners(e, ms, []bool{false, true}, func(id string) int {
		if id == "a" {
			return 1
		}
		return -1
	})
	sym.Assert(ms[0].kicks <= 1 && ms[1].kicks == 0, "at most the former holder is kicked")
	ended(e)
	sym.Reach("takeover")
}

// C20Three: two connections take an id over from a third one at the same time.
func C20Three() {
	e, ms := join(3)
	ms[0].bind("a")
	sym.Quiesce()
	ms[1].bind("a")
	ms[2].bind("a")
	if sym.Choose("close", 2) == 1 {
		spawnV(func() { ms[0].ci.Close() })
	}
	sym.Quiesce()
	last := 1
	if ms[1].fc.Closed() {
		last = 2
	}
	live := make([]bool, 3)
	live[last] = true
	owners(e, ms, live, func(id string) int {
		if id == "a" {
			return last
		}
		return -1
	})
	sym.Assert(ms[0].kicks <= 1 && ms[last].kicks == 0 && ms[3-last].kicks == 1, "whoever loses the id is kicked")
	ended(e)
	sym.Reach("three")
}

// C20Handler: binding from within a handler.
func C20Handler() {
	e, ms := join(2)
	feed(ms[0].fc, fr(1, fNB*uint8(sym.Choose("nb", 2)), 5, []byte("a")))
	sym.Quiesce()
	feed(ms[1].fc, fr(1, fNB*uint8(sym.Choose("nb", 2)), 5, []byte("a")))
	sym.Quiesce()
	owners(e, ms, []bool{false, true}, func(id string) int {
		if id == "a" {
			return 1
		}
		return -1
	})
	fs := frames(ms[0].fc, "kicked")
	sym.Assert(len(fs) == 2 && fs[1].Cmd == 99, "the kicked connection gets the callback's frame")
	sym.Assert(len(frames(ms[1].fc, "owner")) == 1, "the owner gets its response only")
	sym.Reach("handler")
}

// C20Kick: a connection closed in any way while its kick callback runs is not
// closed before the callback has returned.
func C20Kick() {
	var cis []*qrpc.ConnectionInfo
	kicks, early := 0, 0
	hold := make(chan struct{})
	var fcs []*fake.Conn
	b := qrpc.ServerBinding{Handler: qrpc.HandlerFunc(func(w qrpc.FrameWriter, r *qrpc.RequestFrame) {
		cis = append(cis, r.ConnectionInfo())
		finish(w, r.RequestID, endDone)
	})}
	b.OnKickCB = func(w qrpc.FrameWriter) {
		kicks++
		if fcs[0].Closed() {
			early++
		}
		<-hold
		if fcs[0].Closed() {
			early++
		}
	}
	e := newServer(b)
	for i := 0; i < 2; i++ {
		c := e.dial()
		fcs = append(fcs, c)
		feed(c, fr(1, fNB, 5, nil))
		sym.Quiesce()
	}
	cis[0].SetID("a")
	notified := 0
	cis[0].NotifyWhenClose(func() {
		notified++
		if kicks == 0 {
			early++
		}
	})
	bound := spawnV(func() { cis[1].SetID("a") })
	when := sym.Choose("when", 2) == 1
	if when {
		sym.Quiesce()
	}
	closer := spawnV(func() { cis[0].Close() })
	sym.Quiesce()
	if kicks == 1 {
		sym.Assert(!closer.Done() && notified == 0 && early == 0, "a kicked connection is closed after its kick callback")
		sym.Assert(!bound.Done(), "binding completes after the kick")
	}
	sym.Assert(kicks == 1 || !when, "the former owner is kicked")
	close(hold)
	sym.Quiesce()
	sym.Assert(bound.Done() && closer.Done() && fcs[0].Closed() && notified == 1, "binding and closing complete")
	sym.Assert(kicks <= 1 && (kicks == 0 || early == 0), "the kick callback runs once, before the close")
	sym.Assert(e.srv.GetConnectionInfoByID(0, "a") == cis[1], "the newest binding wins")
	sym.Reach("kick")
}
