package main

import (
	"encoding/binary"
	"fmt"
	"io"

	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// C12: traffic counters equal the traffic.

func init() {
	register(&Scenario{ID: "C12", Gen: genC12, Run: runC12, Steps: 20000000,
		Min: map[string]int{"unix": 0, "clients": 1, "eps": 1, "plain": 0, "first": 0, "raws": 0, "codec": 0}})
}

func genC12(g *zzsim.Rng, p *Plan) {
	p.P["clients"] = g.Range(1, 3)
	p.P["eps"] = g.Range(1, 3)
	wide := genWide(g, p)
	p.P["raws"] = g.Intn(3)
	p.P["unix"] = g.Intn(3) / 2
	p.P["codec"] = []int{codecBytes, codecBytes, codecString, codecJSON}[g.Intn(4)]
	p.P["plain"] = g.Intn(len(plainProcs) + 1)
	p.P["collS"] = g.Intn(3)
	p.P["first"] = g.Intn(3) / 2 // the counter comes before the session resolver
	if p.P["first"] == 1 && g.Intn(2) == 0 {
		p.P["codec"] = codecGenericRaw // has empty messages
	}
	p.P["collC"] = g.Intn(3)
	p.P["small"] = []int{0, 0, 1}[g.Intn(3)]
	tame(g, p, 5000)
	// answers are written by the receiving goroutine: with both directions full
	// both sides would wait for each other, so leave room
	p.Net.Window = 65536
	span := []int{200, 5000, 100000, 3000000}[g.Intn(4)]
	if g.Intn(60) == 0 {
		p.add(int64(g.Intn(span)), fmt.Sprintf("%s0.0", []string{"up", "dn"}[g.Intn(2)]), "send", 14, g.Range(257, 600))
	}
	for c := 0; c < p.P["clients"]; c++ {
		for e := 0; e < p.P["eps"]; e++ {
			for s := 0; s < 2; s++ {
				who := fmt.Sprintf("%s%d.%d", []string{"up", "dn"}[s], c, e)
				for i := g.Intn(8); i > 0; i-- {
					p.add(int64(g.Intn(span)), who, "send", g.Range(14, 120*wide), g.Range(1, 3))
				}
			}
		}
		if g.Intn(5) == 0 {
			p.add(int64(g.Intn(span)), "net", "reset", c)
		}
		if g.Intn(4) == 0 {
			p.add(int64(g.Intn(span)), "net", "stall", c, g.Intn(2), g.Intn(2000))
		}
	}
	if g.Intn(15000) == 0 {
		// more messages than a small counter can hold
		p.add(int64(g.Intn(span)), "vol", "vol", g.Intn(2), 66000)
	}
	for r := 0; r < p.P["raws"]; r++ {
		for i := g.Range(1, 8); i > 0; i-- {
			p.add(int64(g.Intn(span)), fmt.Sprintf("raw%d", r), "req", g.Range(1, 3))
		}
	}
	if g.Intn(3) == 0 {
		for i := g.Range(1, 4); i > 0; i-- {
			p.add(int64(g.Intn(span)), "toggle", "toggle", g.Intn(1+p.P["clients"]))
		}
	}
}

// statMon knows what a counter may report.
type statMon struct {
	h        *H
	node     string
	sc       ustack.DataProcessor
	on       bool
	toggling bool
	epoch    int
	in       [2]map[*zzsim.Task]statIn // by the goroutine that passes the message
	sure     [2]uint64
	may      [2]uint64
	reqAt    map[ustack.TransportConnection][]statReq // waiting for an answer
	resp     int
	above    *Spy
	below    *Spy
	vol      map[*zzsim.Task]bool                                           // goroutines that pass messages of their own
	seen     func(c ustack.TransportConnection, tx, rx uint64, name string) // a response that arrived here
}

type statReq struct {
	low   [2]uint64
	epoch int
	on    bool
}

type statIn struct {
	epoch int
	state int // 0 off, 1 on, 2 changing
}

func (m *statMon) state() int {
	if m.toggling {
		return 2
	}
	if m.on {
		return 1
	}
	return 0
}

func (m *statMon) enter(d int) { m.in[d][zzsim.Self()] = statIn{m.epoch, m.state()} }

func (m *statMon) leave(d int) {
	c := zzsim.Self()
	x, ok := m.in[d][c]
	if !ok {
		return
	}
	delete(m.in[d], c)
	if x.epoch == m.epoch && x.state != 2 {
		if x.state == 1 {
			m.sure[d]++
			m.may[d]++
		}
		return
	}
	m.may[d]++
}

func (m *statMon) set(on bool) {
	m.toggling = true
	m.epoch++
	m.sc.SetEnable(on)
	m.epoch++
	m.on = on
	m.toggling = false
}

func parseStat(b []byte) (tx, rx uint64, name string, ok bool) {
	if len(b) < 17 {
		return
	}
	return binary.BigEndian.Uint64(b[1:]), binary.BigEndian.Uint64(b[9:]), string(b[17:]), true
}

// content returns the readable bytes without consuming them.
func content(ub *ustack.UBuf) []byte {
	n := ub.ReadableLength()
	b := make([]byte, n)
	ub.Peek(b)
	return b
}

func (m *statMon) check(where string, b []byte, low [2]uint64) {
	m.h.Obs()
	tx, rx, name, ok := parseStat(b)
	if !ok {
		m.h.Fail("bad-response", "%s: response of %d bytes", where, len(b))
		return
	}
	if name != m.node {
		m.h.Fail("bad-response", "%s: response of %s says it is of %q", where, m.node, name)
	}
	for d, v := range [2]uint64{tx, rx} {
		hi := m.may[d] + uint64(len(m.in[d]))
		if v < low[d] || v > hi {
			m.h.Fail("wrong-count", "%s: %s reports %s %d, but %d to %d messages have passed while enabled", where, m.node, []string{"tx", "rx"}[d], v, low[d], hi)
		}
	}
}

func (h *H) newStatMon(node string, collect int) *statMon {
	m := &statMon{h: h, node: node, on: true, reqAt: map[ustack.TransportConnection][]statReq{}}
	m.in[0] = map[*zzsim.Task]statIn{}
	m.in[1] = map[*zzsim.Task]statIn{}
	m.sc = ustack.NewStatCounter()
	if collect > 0 {
		m.sc.SetOption("Collect.IntervalInSecond", collect)
	}
	return m
}

func (m *statMon) spies() (above, below *Spy) {
	above, below = newSpy("above"), newSpy("below")
	m.above, m.below, m.vol = above, below, map[*zzsim.Task]bool{}
	above.Down = func(c ustack.Context) bool { m.enter(0); return true }
	above.Up = func(c ustack.Context) bool { m.leave(1); return !m.vol[zzsim.Self()] }
	below.Down = func(c ustack.Context) bool {
		b := content(c.GetBuffer())
		if len(b) == 0 {
			m.h.Fail("bad-message", "%s: an empty message below the counter", m.node)
			return true
		}
		switch b[0] {
		case ustack.StatCounterSelfMessageReqTag:
		case ustack.StatCounterSelfMessageResTag:
			q := m.reqAt[c.GetConnection()]
			if len(q) == 0 {
				m.h.Fail("wrong-connection", "%s answers on a connection that has no request waiting", m.node)
				return true
			}
			m.resp++
			m.check(m.node, b, q[0].low)
			m.reqAt[c.GetConnection()] = q[1:]
		default:
			m.leave(0)
			return !m.vol[zzsim.Self()]
		}
		return true
	}
	below.Up = func(c ustack.Context) bool {
		b := content(c.GetBuffer())
		if len(b) == 0 {
			return true
		}
		switch b[0] {
		case ustack.StatCounterSelfMessageReqTag:
			if q := m.reqAt[c.GetConnection()]; len(q) > 0 { // the last one was not answered
				if q[0].on && q[0].epoch == m.epoch {
					m.h.Fail("not-answered", "%s did not answer a request", m.node)
				}
			}
			m.reqAt[c.GetConnection()] = []statReq{{m.sure, m.epoch, m.on && !m.toggling}}
		case ustack.StatCounterSelfMessageResTag:
			if m.seen != nil {
				tx, rx, name, _ := parseStat(b)
				m.seen(c.GetConnection(), tx, rx, name)
			}
		default:
			m.enter(1)
		}
		return true
	}
	return
}

func runC12(h *H) {
	codec := h.p("codec")
	nc, ne := h.p("clients"), h.p("eps")
	unix := h.p("unix") == 1
	network := "tcp"
	if unix {
		network = "unix"
	}
	addr := addrFor(unix, 0)
	l := newLedger(h, codec)
	l.loose = true
	mk := func(node string, coll int) (*Stk, *statMon) {
		m := h.newStatMon(node, coll)
		a, b := m.spies()
		s := h.newStk(node, h.mtu(300)).codec(codec)
		if h.p("first") == 0 {
			s.add(ustack.NewSessionResolver())
		}
		s.U.AppendDataProcessor(a)
		s.add(m.sc)
		s.U.AppendDataProcessor(b)
		if h.p("first") == 1 {
			s.add(ustack.NewSessionResolver())
		}
		if v := h.p("plain"); v > 0 {
			s.add(mkProc(plainProcs[v-1]))
		}
		s.add(ustack.NewFrameDecoder())
		return s, m
	}
	arrive := func(node string) func(ustack.EndPointData) {
		return func(d ustack.EndPointData) {
			b, ok := unpack(codec, d.GetData())
			if ok && (string(b) == "hello" || len(b) == 0) {
				return
			}
			l.arrive(node, d.GetData(), nil)
		}
	}
	srv, smon := mk("S", h.p("collS"))
	mons := []*statMon{smon}
	var seps []*EP
	h.Must("S", "build", func() {
		for e := 0; e < ne; e++ {
			ep := newEP(fmt.Sprintf("ep%d", e), e, h.p("small"))
			h.recvLoop("S", ep, true, arrive("S"))
			srv.U.AddEndPoint(ep)
			seps = append(seps, ep)
		}
		srv.U.AddTransport(newTransport(unix, true, "t", addr))
		srv.U.Run()
	})
	type cl struct {
		node  string
		stk   *Stk
		mon   *statMon
		eps   []*EP
		conn  ustack.TransportConnection
		sconn ustack.TransportConnection
		pair  *snet.Pair
		reset bool
	}
	cs := []*cl{}
	var lastPair *snet.Pair
	h.Net.OnPair = func(p *snet.Pair) { lastPair = p }
	for i := 0; i < nc; i++ {
		x := &cl{node: fmt.Sprintf("C%d", i)}
		x.stk, x.mon = mk(x.node, h.p("collC"))
		mons = append(mons, x.mon)
		cs = append(cs, x)
		x.stk.OnEv = func(e Ev) {
			if e.Type == ustack.UStackEventNewConnection && x.conn == nil {
				x.conn = e.Conn
			}
		}
		h.Must(x.node, "build", func() {
			for e := 0; e < ne; e++ {
				ep := newEP(fmt.Sprintf("ep%d", e), e, h.p("small"))
				h.recvLoop(x.node, ep, true, arrive(x.node))
				x.stk.U.AddEndPoint(ep)
				x.eps = append(x.eps, ep)
			}
			x.stk.U.AddTransport(newTransport(unix, false, "t", addr))
			x.stk.U.Run()
		})
		if !h.Wait(20*sec, func() bool { return x.conn != nil && len(srv.Conns) == i+1 }) {
			h.Fail("no-connection", "%s did not connect", x.node)
			return
		}
		x.sconn = srv.Conns[i]
		x.pair = lastPair
	}
	room := srv.room()
	start := zzsim.NowNano()
	var dones []*bool
	sends := 0
	for i, x := range cs {
		for e := 0; e < ne; e++ {
			i, x, e := i, x, e
			seq := 0
			dones = append(dones, h.actor(x.node, fmt.Sprintf("up%d.%d", i, e), start, func(o Op) {
				for k := 0; k < o.B && !x.reset; k++ {
					if m, b := l.make("u", 100+i*10+e, seq, o.A, room); m != nil {
						m.must = true
						send(x.eps[e], x.conn, b)
					}
					if h.p("first") == 1 && seq%4 == 1 && codec != codecJSON {
						send(x.eps[e], x.conn, pack(codec, seq, []byte{}))
					}
					seq++
					sends++
				}
			}))
			seq2 := 0
			dones = append(dones, h.actor("S", fmt.Sprintf("dn%d.%d", i, e), start, func(o Op) {
				for k := 0; k < o.B && !x.reset; k++ {
					if m, b := l.make("d", 500+i*10+e, seq2, o.A, room); m != nil {
						m.must = true
						send(seps[e], x.sconn, b)
					}
					if h.p("first") == 1 && seq2%4 == 1 && codec != codecJSON {
						send(seps[e], x.sconn, pack(codec, seq2, []byte{}))
					}
					seq2++
					sends++
				}
			}))
		}
	}
	dones = append(dones, h.actor("main", "net", start, func(o Op) {
		x := cs[o.A]
		switch o.K {
		case "reset":
			x.reset = true
			x.pair.Reset()
		case "stall":
			x.pair.Stall(o.B, zzsim.NowNano()+int64(o.C)*ms)
		}
	}))
	dones = append(dones, h.actor("main", "toggle", start, func(o Op) {
		zzsim.Count("fault.toggle", 1)
		mons[o.A].set(!mons[o.A].on)
	}))
	dones = append(dones, h.actor("S", "vol", start, func(o Op) {
		smon.vol[zzsim.Self()] = true
		for k := 0; k < o.B; k++ {
			if k%1000 == 999 {
				h.Sleep(us)
			}
			ub := ustack.UBufAllocWithHeadReserved(40, 20)
			ctx := ustack.NewUStackContext().SetConnection(cs[0].sconn).SetBuffer(ub)
			ub.WriteByte('v')
			if o.A == 0 {
				smon.above.OnUpperData(ctx)
			} else {
				ub.WriteHeadByte(ustack.StatCounterUplayerMessageTag)
				smon.below.OnLowerData(ctx)
			}
		}
	}))
	// collectors that speak the protocol themselves
	type raw struct {
		c    io.ReadWriteCloser
		low  [][2]uint64
		epo  []int
		got  int
		dead bool
	}
	rs := []*raw{}
	req := []byte{0, 0, 0, 1, ustack.StatCounterSelfMessageReqTag}
	if h.p("first") == 1 {
		req = []byte{0, 0, 0, 5, 0, 0, 0, 0, ustack.StatCounterSelfMessageReqTag}
	}
	for r := 0; r < h.p("raws")+1; r++ {
		r := r
		node := fmt.Sprintf("raw%d", r)
		x := &raw{}
		rs = append(rs, x)
		ok := h.Call(node, "dial", 20*sec, func() {
			c, err := snet.Dial(network, addr)
			if err != nil {
				return
			}
			x.c = c
		})
		if !ok || x.c == nil {
			h.Fail("no-connection", "collector %d did not connect", r)
			return
		}
		h.Go(node, "read", func() {
			for {
				var hd [4]byte
				if _, err := io.ReadFull(x.c, hd[:]); err != nil {
					x.dead = true
					return
				}
				b := make([]byte, binary.BigEndian.Uint32(hd[:]))
				if _, err := io.ReadFull(x.c, b); err != nil {
					x.dead = true
					return
				}
				if h.p("first") == 1 && len(b) > 4 {
					b = b[4:] // the session
				}
				if len(b) == 1 && b[0] == ustack.StatCounterSelfMessageReqTag {
					continue // S collects, too
				}
				if len(b) == 0 || b[0] != ustack.StatCounterSelfMessageResTag {
					h.Fail("wrong-connection", "collector %d received something that is not a response: %s", r, brief(b))
					return
				}
				if x.got >= len(x.low) {
					h.Fail("wrong-connection", "collector %d received more responses than it sent requests", r)
					return
				}
				// at least one request may be unanswered while disabled: the
				// lowest bound that can belong to this answer
				smon.check(fmt.Sprintf("collector %d", r), b, x.low[x.got])
				x.got++
			}
		})
		dones = append(dones, h.actor(node, node, start, func(o Op) {
			for k := 0; k < o.A; k++ {
				x.low = append(x.low, smon.sure)
				x.epo = append(x.epo, smon.epoch)
				x.c.Write(req)
			}
		}))
	}
	if !h.Wait(120*sec, func() bool {
		for _, d := range dones {
			if !*d {
				return false
			}
		}
		return true
	}) {
		h.Fail("blocked", "senders cannot finish: %v", zzsim.TaskNames(h.Node("S")))
	}
	anyReset := false
	for _, x := range cs {
		anyReset = anyReset || x.reset
	}
	if !anyReset {
		l.settle(60*sec, "although nothing is wrong with the network")
	} else {
		h.Sleep(30 * sec)
	}
	for _, m := range mons {
		m.set(true)
	}
	h.Sleep(3 * sec)
	// now everything is quiet: the counters are exact
	for _, m := range mons {
		for d := range m.in {
			if len(m.in[d]) > 0 {
				h.Fail("stuck", "%s: %d messages are stuck in the counter", m.node, len(m.in[d]))
			}
		}
	}
	x := rs[len(rs)-1]
	got := x.got
	h.Must("raw", "ask", func() {
		x.low = append(x.low, smon.sure)
		x.c.Write(req)
	})
	if !h.Wait(20*sec, func() bool { return x.got > got }) {
		h.Fail("not-answered", "no response to a request")
	}
	h.Sleep(8 * sec) // several collections
	toggled := len(h.ops("toggle")) > 0
	for r, x := range rs {
		if !toggled && x.got != len(x.low) {
			h.Fail("not-answered", "collector %d sent %d requests and got %d responses", r, len(x.low), x.got)
		}
		if x.dead {
			h.Fail("closed", "the connection of collector %d was closed", r)
		}
	}
	for _, m := range mons[1:] {
		if h.p("collS") > 0 && !cs[0].reset && m == mons[1] && m.resp == 0 {
			h.Fail("not-collected", "%s was never asked for its counters", m.node)
		}
	}
	if h.p("collC") > 0 && !cs[0].reset && smon.resp == 0 {
		h.Fail("not-collected", "S was never asked for its counters")
	}
	if !anyReset {
		l.settle(20*sec, "although nothing is wrong with the network")
	}
	zzsim.Count("responses", int64(smon.resp))
}
