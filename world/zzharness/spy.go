package main

import (
	"ustack"
	"ustack/zzsim"
)

// Spy is a transparent data processor of the harness; its functions see what
// passes and may hold it back by returning false.
type Spy struct {
	name       string
	up, low    ustack.DataProcessor
	U          ustack.UStack
	Down       func(ustack.Context) bool // from above
	Up         func(ustack.Context) bool // from below
	Event      func(ustack.Event)
	OnRun      func()
	overhead   int
	enable     bool
	forServer  bool
	properties map[string]interface{}
}

func newSpy(name string) *Spy { return &Spy{name: name, properties: map[string]interface{}{}} }

func (s *Spy) SetName(n string) ustack.DataProcessor                { s.name = n; return s }
func (s *Spy) GetName() string                                      { return s.name }
func (s *Spy) GetOverhead() int                                     { return s.overhead }
func (s *Spy) ForServer(b bool) ustack.DataProcessor                { s.forServer = b; return s }
func (s *Spy) SetEnable(b bool) ustack.DataProcessor                { s.enable = b; return s }
func (s *Spy) SetUStack(u ustack.UStack) ustack.DataProcessor       { s.U = u; return s }
func (s *Spy) SetUpper(p ustack.DataProcessor) ustack.DataProcessor { s.up = p; return s }
func (s *Spy) SetLower(p ustack.DataProcessor) ustack.DataProcessor { s.low = p; return s }
func (s *Spy) Run() ustack.DataProcessor {
	if s.OnRun != nil {
		s.OnRun()
	}
	return s
}
func (s *Spy) GetOption(n string) interface{} { return s.properties[n] }
func (s *Spy) SetOption(n string, v interface{}) ustack.DataProcessor {
	s.properties[n] = v
	return s
}

func (s *Spy) OnUpperData(c ustack.Context) {
	if s.Down == nil || s.Down(c) {
		s.low.OnUpperData(c)
	}
}

func (s *Spy) OnLowerData(c ustack.Context) {
	if s.Up == nil || s.Up(c) {
		s.up.OnLowerData(c)
	}
}

func (s *Spy) OnEvent(e ustack.Event) {
	if s.Event != nil {
		s.Event(e)
	}
}

// ---------------------------------------------------------------- heartbeats

// hbMon watches the heartbeats and losses of one stack.
type hbMon struct {
	h          *H
	node       string
	timeout    int64
	close      bool
	conns      []*hbConn
	by         map[ustack.TransportConnection]*hbConn
	exempt     bool // paused or dead: no bound on its punctuality
	slowAll    bool // listeners are slow: no bound on its punctuality
	closedRule bool // closed connections must not be reported
}

type hbConn struct {
	n       int
	conn    ustack.TransportConnection
	begin   int64
	beats   []int64 // arrivals, the first entry is the begin
	lost    []int64
	endAt   int64 // connection-closed event, 0: none
	healthy bool
	used    []bool // a loss was reported for the gap after beats[i]
	app     int64  // the application closed it
}

const hbSlack = 60 * ms

func (h *H) newHBMon(node string, timeout int64, close bool) *hbMon {
	return &hbMon{h: h, node: node, timeout: timeout, close: close, by: map[ustack.TransportConnection]*hbConn{}}
}

// spy returns the processor to put directly below the heartbeat.
func (m *hbMon) spy() *Spy {
	s := newSpy("spy")
	s.Up = func(c ustack.Context) bool {
		ub := c.GetBuffer()
		if ub == nil {
			return true
		}
		if b, err := ub.PeekByte(); err == nil && b == ustack.HeartbeatSelfMessageTag {
			k := m.by[c.GetConnection()]
			if k != nil {
				k.beats = append(k.beats, zzsim.NowNano())
				k.used = append(k.used, false)
			}
		}
		return true
	}
	return s
}

// event is called by the first event listener of the stack.
func (m *hbMon) event(e Ev) {
	if e.Conn == nil {
		return
	}
	now := zzsim.NowNano()
	k := m.by[e.Conn]
	switch e.Type {
	case ustack.UStackEventNewConnection:
		if k != nil {
			return
		}
		k = &hbConn{n: len(m.conns), conn: e.Conn, begin: now, beats: []int64{now}, used: []bool{false}}
		m.by[e.Conn] = k
		m.conns = append(m.conns, k)
	case ustack.UStackEventConnectionClosed:
		if k != nil && k.endAt == 0 {
			k.endAt = now
		}
	case ustack.UStackEventHeartbeatLost:
		m.h.Obs()
		if k == nil {
			m.h.Fail("lost-unknown", "%s: loss of a connection that was never announced", m.node)
			return
		}
		zzsim.Logf("lost %s/%d", m.node, k.n)
		k.lost = append(k.lost, now)
		if k.healthy {
			m.h.Fail("lost-live", "%s connection %d reported lost %d ms after its last heartbeat although nothing disturbs it (timeout %d s)", m.node, k.n, (now-k.beats[len(k.beats)-1])/ms, m.timeout/sec)
		}
		if m.closedRule && k.endAt != 0 && now > k.endAt+hbSlack {
			m.h.Fail("lost-closed", "%s connection %d reported lost %d ms after it was closed", m.node, k.n, (now-k.endAt)/ms)
		}
		if m.closedRule && k.app != 0 && now > k.app+hbSlack {
			m.h.Fail("lost-closed", "%s connection %d reported lost %d ms after the application closed it", m.node, k.n, (now-k.app)/ms)
		}
		// a silence it belongs to
		found := false
		for i := len(k.beats) - 1; i >= 0; i-- {
			end := now
			if i+1 < len(k.beats) {
				end = k.beats[i+1]
			}
			if end-k.beats[i] >= m.timeout-hbSlack && now >= k.beats[i]+m.timeout {
				if k.used[i] {
					m.h.Fail("lost-twice", "%s connection %d reported lost again for the same silence", m.node, k.n)
				}
				if i+1 < len(k.beats) && now > end+hbSlack && !m.slowAll && !m.exempt {
					m.h.Fail("lost-live", "%s connection %d reported lost although a heartbeat had arrived %d ms before", m.node, k.n, (now-end)/ms)
				}
				k.used[i] = true
				found = true
				break
			}
		}
		if !found && !m.exempt {
			m.h.Fail("lost-early", "%s connection %d reported lost %d ms after its last heartbeat, timeout %d s", m.node, k.n, (now-k.beats[len(k.beats)-1])/ms, m.timeout/sec)
		}
		if m.close && !k.conn.Closed() {
			m.h.Fail("not-closed-on-lost", "%s connection %d is open although it is lost and close-on-lost is set", m.node, k.n)
		}
	}
}

// check verifies that every silence has been reported in time.
func (m *hbMon) check() {
	if m.exempt {
		return
	}
	now := zzsim.NowNano()
	for _, k := range m.conns {
		for i := range k.beats {
			end := now
			if i+1 < len(k.beats) {
				end = k.beats[i+1]
			}
			if k.endAt != 0 && end > k.endAt {
				end = k.endAt
			}
			if k.app != 0 && end > k.app {
				end = k.app
			}
			bound := m.timeout + 2*sec
			if !m.slowAll && end-k.beats[i] > bound+hbSlack && !k.used[i] {
				m.h.Fail("not-lost", "%s connection %d: silence of %d ms after %d ms not reported (timeout %d s)", m.node, k.n, (end-k.beats[i])/ms, k.beats[i]/ms, m.timeout/sec)
			}
		}
		m.h.Obs()
	}
}

// punctual checks the time of the reports.
func (m *hbMon) punctual() {
	if m.exempt || m.slowAll {
		return
	}
	for _, k := range m.conns {
		for _, t := range k.lost {
			var last int64
			for _, b := range k.beats {
				if b <= t-hbSlack {
					last = b
				}
			}
			if t > last+m.timeout+2*sec+hbSlack {
				m.h.Fail("lost-late", "%s connection %d: lost reported %d ms after the last heartbeat, timeout %d s", m.node, k.n, (t-last)/ms, m.timeout/sec)
			}
		}
		if len(k.lost) > 0 && m.close {
			if !k.conn.Closed() || (k.endAt == 0 && zzsim.NowNano() > k.lost[0]+2*sec) {
				m.h.Fail("not-closed-on-lost", "%s connection %d was lost but not closed", m.node, k.n)
			}
		}
	}
}

type snetConn interface {
	Read([]byte) (int, error)
	Write([]byte) (int, error)
	Close() error
}
