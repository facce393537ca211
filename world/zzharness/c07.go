package main

import (
	"fmt"

	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// C07: every connection has exactly one begin and one end event.

func init() {
	register(&Scenario{ID: "C07", Gen: genC07, Run: runC07,
		Min: map[string]int{"slow": 0, "hb": 0, "unix": 0, "eps": 1, "ls": 1, "small": 0}})
}

func genC07(g *zzsim.Rng, p *Plan) {
	defer genLull(g, p)
	if g.Intn(8) == 0 {
		genC07ref(g, p)
		return
	}
	n := g.Range(1, 4)
	if g.Intn(12) == 0 {
		n = many(g, 5, 10, 4, 40)
	}
	p.P["clients"] = n
	p.P["unix"] = g.Intn(3)
	hb := g.Intn(2)
	p.P["hb"] = hb
	p.P["eps"] = g.Range(1, 3)
	p.P["ls"] = g.Range(1, 3)
	wide := genWide(g, p)
	p.P["small"] = []int{0, 0, 2}[g.Intn(3)]
	if g.Intn(3) == 0 {
		p.P["slow"] = []int{1, 10, 40}[g.Intn(3)]
	}
	span := []int{2000, 100000, 3000000}[g.Intn(3)]
	kinds := []string{"pclose", "sclose", "reset", "failc", "fails", "softc", "softs", "crash", "delC", "delS", "delC", "quiet"}
	if hb == 1 {
		kinds = append(kinds, "silent", "stall", "stall")
	}
	for i := 0; i < n; i++ {
		late := 0
		if g.Intn(3) == 0 {
			late = g.Intn(span)
		}
		p.add(int64(late), "start", "start", i)
		for j := g.Intn(8); j > 0; j-- {
			p.add(int64(late+g.Intn(span)), fmt.Sprintf("C%d", i), "send", g.Range(15, 120*wide))
		}
		for j := g.Intn(8); j > 0; j-- {
			p.add(int64(late+g.Intn(span)), fmt.Sprintf("S%d", i), "send", g.Range(15, 120*wide))
		}
		at := late + g.Intn(span)
		for j := g.Intn(4); j > 0; j-- { // often several causes at once
			p.add(int64(at+[]int{0, 0, 1, 30, 1000}[g.Intn(5)]), "net", kinds[g.Intn(len(kinds))], i, g.Intn(800))
			// and traffic at that moment
			for k := g.Intn(4); k > 0; k-- {
				p.add(int64(at+g.Intn(20)), fmt.Sprintf("%s%d", []string{"C", "S"}[g.Intn(2)], i), "send", g.Range(15, 120*wide))
			}
			if g.Intn(3) == 0 {
				at += g.Intn(span)
			}
		}
		if g.Intn(3) == 0 {
			p.add(int64(at+g.Intn(span)), "start", "again", i)
		}
	}
}

// monitor of one stack's connection events
type connMon struct {
	h      *H
	node   string
	conns  []*connLife
	by     map[ustack.TransportConnection]*connLife
	places []string
	dead   bool
	refs   bool // reference connections: no sockets
}

type connLife struct {
	n        int
	conn     ustack.TransportConnection
	begins   map[string]int
	ends     map[string]int
	lost     int
	endAt    int64
	reported bool
}

func newConnMon(h *H, node string) *connMon {
	return &connMon{h: h, node: node, by: map[ustack.TransportConnection]*connLife{}}
}

func (m *connMon) life(c ustack.TransportConnection) *connLife {
	l := m.by[c]
	if l == nil {
		l = &connLife{n: len(m.conns), conn: c, begins: map[string]int{}, ends: map[string]int{}}
		m.by[c] = l
		m.conns = append(m.conns, l)
	}
	return l
}

// event is an event seen at a place (a listener of the stack or of an endpoint).
func (m *connMon) event(place string, typ int, c ustack.TransportConnection) {
	m.h.Obs()
	l := m.life(c)
	zzsim.Logf("conn %s/%d: event %d at %s", m.node, l.n, typ, place)
	switch typ {
	case ustack.UStackEventNewConnection:
		l.begins[place]++
		if l.begins[place] > 1 {
			m.h.Fail("begin-twice", "%s connection %d: new-connection event %d at %s", m.node, l.n, l.begins[place], place)
		}
		if l.ends[place] > 0 {
			m.h.Fail("begin-after-end", "%s connection %d: new-connection event after its end event at %s", m.node, l.n, place)
		}
		return
	}
	if l.begins[place] == 0 {
		m.h.Fail("no-begin", "%s connection %d: event %d at %s before its new-connection event", m.node, l.n, typ, place)
	}
	if typ == ustack.UStackEventConnectionClosed {
		l.ends[place]++
		l.endAt = zzsim.NowNano()
		if l.ends[place] > 1 {
			m.h.Fail("end-twice", "%s connection %d: connection-closed event %d at %s", m.node, l.n, l.ends[place], place)
		}
	}
}

// data is a message delivered to an endpoint.
func (m *connMon) data(c ustack.TransportConnection) {
	l := m.life(c)
	for _, p := range m.places {
		if l.begins[p] == 0 {
			m.h.Fail("data-before-begin", "%s connection %d: data delivered before the new-connection event reached %s", m.node, l.n, p)
		}
	}
}

// attach installs the listeners of a stack.
func (m *connMon) attach(s *Stk, listeners int, slow int) {
	place := func(i int) string { return fmt.Sprintf("listener%d", i) }
	for i := 0; i < listeners; i++ {
		p := place(i)
		m.places = append(m.places, p)
		if i == 0 {
			s.OnEv = func(e Ev) {
				if e.Conn != nil {
					m.event(p, e.Type, e.Conn)
					if slow > 0 {
						m.h.Sleep(int64(slow) * ms)
					}
				}
			}
			continue
		}
		s.U.SetEventListener(func(e ustack.Event) {
			if c, ok := e.Data.(ustack.TransportConnection); ok {
				m.event(p, e.Type, c)
				if slow > 0 && i == 1 {
					m.h.Sleep(int64(slow) * ms / 2)
				}
			}
		})
	}
}

func (m *connMon) endpoint(e *EP) {
	p := "endpoint " + e.Label
	m.places = append(m.places, p)
	e.SetEventListener(func(_ ustack.EndPoint, ev ustack.Event) {
		if c, ok := ev.Data.(ustack.TransportConnection); ok {
			m.event(p, ev.Type, c)
		}
	})
}

// finish checks the accounts of a live stack after everything has settled.
func (m *connMon) finish() {
	if m.dead {
		return
	}
	open := 0
	for _, l := range m.conns {
		closed := l.conn.Closed()
		if !closed {
			open++
		}
		for _, p := range m.places {
			m.h.Obs()
			if l.begins[p] != 1 {
				m.h.Fail("no-begin", "%s connection %d: %d new-connection events at %s", m.node, l.n, l.begins[p], p)
			}
			if closed && l.ends[p] != 1 {
				m.h.Fail("no-end", "%s connection %d has ended but %d connection-closed events reached %s", m.node, l.n, l.ends[p], p)
			}
			if !closed && l.ends[p] != 0 {
				m.h.Fail("end-of-open", "%s connection %d is open but its connection-closed event was published", m.node, l.n)
			}
		}
	}
	if k := m.h.Net.OpenConns(m.node); k != open && !m.refs {
		m.h.Fail("end-mismatch", "%s has %d open sockets but %d open connections", m.node, k, open)
	}
}

func runC07(h *H) {
	if h.p("ref") == 1 {
		runC07ref(h)
		return
	}
	n := h.p("clients")
	mode := h.p("unix")
	isUnix := func(c int) bool { return mode == 1 || (mode == 2 && c%2 == 1) }
	hb := h.p("hb") == 1
	mk := func(node string) *Stk {
		s := h.newStk(node, h.mtu(200)).codec(codecBytes).add(ustack.NewSessionResolver())
		if hb {
			s.add(ustack.NewHeartbeat().SetOption("IntervalInSecond", 1).SetOption("TimeoutInSecond", 3))
		}
		return s.add(ustack.NewFrameDecoder())
	}
	mons := []*connMon{newConnMon(h, "S")}
	build := func(s *Stk, m *connMon) (eps []*EP) {
		m.attach(s, h.p("ls"), h.p("slow"))
		for i := 0; i < h.p("eps"); i++ {
			e := newEP(fmt.Sprint(i), i, h.p("small"))
			m.endpoint(e)
			h.recvLoop(s.Node, e, i%2 == 0, func(d ustack.EndPointData) { m.data(d.GetConnection()) })
			s.U.AddEndPoint(e)
			eps = append(eps, e)
		}
		return
	}
	type cl struct {
		name     string
		i        int
		stk      *Stk
		eps      []*EP
		mon      *connMon
		tp       ustack.Transport
		on       bool
		dead     bool
		ran      bool // Run has returned
		deleting int
		delAt    int64
		pairs    []*snet.Pair
		caused   map[*snet.Pair]bool
	}
	cs := make([]*cl, n)
	for i := range cs {
		cs[i] = &cl{name: fmt.Sprintf("C%d", i), i: i, delAt: -2 * sec, caused: map[*snet.Pair]bool{}}
	}
	var failAt []Op
	for _, o := range h.ops("net") {
		if o.K == "failc" || o.K == "fails" || o.K == "softc" || o.K == "softs" {
			failAt = append(failAt, o)
		}
	}
	h.Net.OnPair = func(p *snet.Pair) {
		for _, c := range cs {
			if c.name != p.ClientNode {
				continue
			}
			c.pairs = append(c.pairs, p)
			if c.deleting > 0 || !c.on || zzsim.NowNano() < c.delAt+1200*ms { // a dial of before may still succeed
				c.caused[p] = true
			}
			for _, o := range failAt {
				if o.A == c.i && len(c.pairs) == 1 {
					d := 0
					if o.K == "fails" || o.K == "softs" {
						d = 1
					}
					if o.K[0] == 's' { // the socket itself survives the failure
						p.FailWriteSoft(d, int64(o.B))
					} else {
						p.FailWrite(d, int64(o.B))
					}
					c.caused[p] = true
				}
			}
		}
	}
	srv := mk("S")
	var seps []*EP
	var stp [2]ustack.Transport
	h.Must("S", "build", func() {
		seps = build(srv, mons[0])
		for k := 0; k < 2; k++ {
			if mode == 2 || mode == k {
				stp[k] = newTransport(k == 1, true, "t", addrFor(k == 1, 0))
				srv.U.AddTransport(stp[k])
			}
		}
		srv.U.Run()
	})
	start := zzsim.NowNano()
	sdone := h.actor("main", "start", start, func(o Op) {
		c := cs[o.A]
		if c.dead {
			return
		}
		switch o.K {
		case "start":
			c.stk = mk(c.name)
			c.mon = newConnMon(h, c.name)
			mons = append(mons, c.mon)
			c.tp = newTransport(isUnix(o.A), false, "t", addrFor(isUnix(o.A), 0))
			c.on = true
			h.Go(c.name, "build", func() {
				c.eps = build(c.stk, c.mon)
				c.stk.U.AddTransport(c.tp)
				c.stk.U.Run()
				c.ran = true
			})
		case "again":
			if !c.ran || c.on {
				return
			}
			c.on = true
			h.Go(c.name, "again", func() { c.stk.U.AddTransport(c.tp) })
		}
	})
	connOf := func(m *connMon, k int) ustack.TransportConnection {
		if m == nil || len(m.conns) == 0 {
			return nil
		}
		return m.conns[k%len(m.conns)].conn
	}
	done := []*bool{sdone}
	var cdone = make([]*bool, n)
	for i := range cs {
		c := cs[i]
		seq := 0
		cdone[i] = h.actor(c.name, c.name, start, func(o Op) {
			if c.mon == nil || len(c.mon.conns) == 0 || c.eps == nil {
				return
			}
			seq++
			send(c.eps[seq%len(c.eps)], connOf(c.mon, len(c.mon.conns)-1), payload(i, seq, o.A))
		})
		sq := 0
		done = append(done, h.actor("S", fmt.Sprintf("S%d", i), start, func(o Op) {
			if k := connOf(mons[0], sq); k != nil {
				sq++
				send(seps[sq%len(seps)], k, payload(100+i, sq, o.A))
			}
		}))
	}
	ended := start
	netDone := h.actor("main", "net", start, func(o Op) {
		c := cs[o.A]
		if c.dead {
			return
		}
		ended = zzsim.NowNano()
		causeAll := func() {
			for _, p := range c.pairs {
				c.caused[p] = true
			}
		}
		switch o.K {
		case "pclose":
			if c.mon != nil {
				if k := connOf(c.mon, len(c.mon.conns)-1+1000*len(c.mon.conns)); k != nil {
					causeAll()
					h.Go(c.name, "close", func() { k.Close() })
				}
			}
		case "sclose":
			if k := connOf(mons[0], o.B); k != nil {
				for _, x := range cs {
					for _, p := range x.pairs {
						x.caused[p] = true
					}
				}
				h.Go("S", "close", func() { k.Close() })
			}
		case "reset":
			for _, p := range c.pairs {
				c.caused[p] = true
				p.Reset()
			}
		case "stall":
			for _, p := range c.pairs {
				c.caused[p] = true
				p.Stall(o.B%2, zzsim.NowNano()+3600*sec)
			}
		case "crash", "silent":
			if c.stk == nil {
				return
			}
			zzsim.Count("fault."+o.K, 1)
			c.dead = true
			c.mon.dead = true
			causeAll()
			zzsim.KillNode(h.Node(c.name))
			h.Net.CrashNode(c.name, o.K == "silent")
		case "delC":
			if c.ran && c.on {
				c.on = false
				c.delAt = zzsim.NowNano()
				causeAll()
				h.Go(c.name, "delete", func() { c.stk.U.DeleteTransport(c.tp) })
			}
		case "delS":
			k := 0
			if isUnix(o.A) {
				k = 1
			}
			if stp[k] == nil {
				return
			}
			same := func(x *cl) bool { return isUnix(x.i) == (k == 1) }
			for _, x := range cs {
				if same(x) {
					x.deleting++
					for _, p := range x.pairs {
						x.caused[p] = true
					}
				}
			}
			t := stp[k]
			h.Go("S", "delete", func() {
				srv.U.DeleteTransport(t)
				for _, x := range cs {
					if same(x) {
						x.deleting--
					}
				}
				h.Sleep(5 * ms)
				srv.U.AddTransport(t)
			})
		}
	})
	if !h.Wait(300*sec, func() bool {
		for i, d := range cdone {
			if !*d && !cs[i].dead {
				return false
			}
		}
		for _, d := range done {
			if !*d {
				return false
			}
		}
		return *netDone
	}) {
		h.Fail("blocked", "operations did not finish within 300 s: %v", zzsim.TaskNames(h.Node("S")))
	}
	_ = ended
	// after the last cause: heartbeats need up to timeout + 2 s
	h.Sleep(10 * sec)
	for _, c := range cs {
		for _, p := range c.pairs {
			p.Disarm() // a heartbeat may still run into it
		}
	}
	h.Sleep(8 * sec)
	for _, m := range mons {
		m.finish()
	}
	for _, c := range cs {
		for k, p := range c.pairs {
			h.Obs()
			for side := 0; side < 2; side++ {
				if side == 0 && c.dead {
					continue
				}
				if p.ClosedBy(side) && !c.caused[p] && !p.Broken(0) && !p.Broken(1) {
					h.Fail("closed-for-nothing", "%s pair %d: closed by side %d although nothing ended it", c.name, k, side)
				}
				if !p.ClosedBy(side) && p.Broken(side) {
					h.Fail("no-end", "%s pair %d: side %d has seen the end of the connection but did not close it", c.name, k, side)
				}
			}
			if !c.caused[p] && (p.Broken(0) || p.Broken(1)) {
				h.Fail("closed-for-nothing", "%s pair %d ended although nothing ended it", c.name, k)
			}
		}
	}
}

// the same for connections that pass references
func genC07ref(g *zzsim.Rng, p *Plan) {
	p.P["ref"] = 1
	p.P["hb"] = g.Intn(2)
	p.P["eps"] = g.Range(1, 3)
	p.P["ls"] = g.Range(1, 3)
	p.P["q"] = []int{0, 1, 3, 20}[g.Intn(4)]
	if g.Intn(3) == 0 {
		p.P["slow"] = []int{1, 10, 40}[g.Intn(3)]
	}
	span := []int{2000, 100000, 1000000}[g.Intn(3)]
	for s := 0; s < 2; s++ {
		for j := g.Intn(12); j > 0; j-- {
			p.add(int64(g.Intn(span)), []string{"A", "B"}[s], "send")
		}
		at := int64(0)
		for j := g.Intn(6); j > 0; j-- {
			at += int64(g.Intn(span))
			p.add(at, []string{"nA", "nB"}[s], []string{"close", "del", "add", "add"}[g.Intn(4)])
			if g.Intn(2) == 0 {
				p.add(at+int64(g.Intn(30)), []string{"nA", "nB"}[s], []string{"close", "del", "add"}[g.Intn(3)])
			}
		}
	}
}

func runC07ref(h *H) {
	type side struct {
		node string
		stk  *Stk
		mon  *connMon
		eps  []*EP
		tp   ustack.Transport
		on   bool
		adds int
		shut bool // the application closed a connection since the transport was added
	}
	var ss [2]*side
	for k := range ss {
		x := &side{node: []string{"A", "B"}[k]}
		ss[k] = x
		x.stk = h.newStk(x.node, 200)
		if h.p("hb") == 1 {
			x.stk.add(ustack.NewHeartbeat().SetOption("IntervalInSecond", 1).SetOption("TimeoutInSecond", 3)).add(ustack.NewFrameDecoder())
		}
		x.mon = newConnMon(h, x.node)
		x.mon.refs = true
		x.tp = ustack.NewReferenceTransport("ref").SetAddress("c07").ForServer(k == 0)
		if q := h.p("q"); q > 0 {
			x.tp.SetOption("MaxQueueSize", q)
		}
	}
	for _, x := range ss {
		x := x
		h.Must(x.node, "build", func() {
			x.mon.attach(x.stk, h.p("ls"), h.p("slow"))
			for i := 0; i < h.p("eps"); i++ {
				e := newEP(fmt.Sprint(i), i, 0)
				x.mon.endpoint(e)
				h.recvLoop(x.node, e, true, func(d ustack.EndPointData) { x.mon.data(d.GetConnection()) })
				x.stk.U.AddEndPoint(e)
				x.eps = append(x.eps, e)
			}
			x.stk.U.AddTransport(x.tp)
			x.stk.U.Run()
			x.on = true
			x.adds++
		})
	}
	start := zzsim.NowNano()
	var done []*bool
	for _, x := range ss {
		x := x
		last := func() ustack.TransportConnection {
			if len(x.mon.conns) == 0 {
				return nil
			}
			return x.mon.conns[len(x.mon.conns)-1].conn
		}
		done = append(done, h.actor(x.node, x.node, start, func(o Op) {
			if c := last(); c != nil {
				send(x.eps[0], c, &refObj{})
			}
		}))
		done = append(done, h.actor(x.node, "n"+x.node, start, func(o Op) {
			switch o.K {
			case "close":
				if c := last(); c != nil {
					zzsim.Count("fault.close", 1)
					x.shut = true
					c.Close()
				}
			case "del":
				if x.on {
					zzsim.Count("fault.delete", 1)
					x.on = false
					x.stk.U.DeleteTransport(x.tp)
				}
			case "add":
				if !x.on {
					x.on = true
					x.shut = false
					x.adds++
					x.stk.U.AddTransport(x.tp)
				}
			}
		}))
	}
	if !h.Wait(300*sec, func() bool {
		for _, d := range done {
			if !*d {
				return false
			}
		}
		return true
	}) {
		h.Fail("blocked", "operations did not finish within 300 s: %v", zzsim.TaskNames(h.Node("A")))
	}
	h.Sleep(10 * sec)
	for _, x := range ss {
		x.mon.finish()
		if n := len(x.mon.conns); n > x.adds {
			h.Fail("begin-twice", "%s: %d connections announced, the transport was added %d times", x.node, n, x.adds)
		}
		open := 0
		for _, l := range x.mon.conns {
			h.Obs()
			if !l.conn.Closed() {
				open++
			}
		}
		if !x.on && open > 0 {
			h.Fail("no-end", "%s: %d connections are open although the transport is deleted", x.node, open)
		}
		if x.on && len(x.mon.conns) == 0 {
			h.Fail("no-begin", "%s: the transport is there but no connection was announced", x.node)
		}
		if x.on && open != 1 && !x.shut {
			h.Fail("closed-for-nothing", "%s: %d open connections although the transport is there and nobody closed one", x.node, open)
		}
	}
}
