package main

import (
	"fmt"

	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// C17: unsendable messages vanish whole and a torn frame is never followed.

func init() {
	register(&Scenario{ID: "C17", Gen: genC17, Run: runC17,
		Min: map[string]int{"codec": 0, "procs": 0, "unix": 0, "small": 0}})
}

var badKinds = []string{"over", "over", "over", "type", "type", "nilconn", "nilmsg", "nilptr", "deadconn", "empty"}

func genC17(g *zzsim.Rng, p *Plan) {
	defer genLull(g, p)
	if g.Intn(12) == 0 {
		p.P["ref"] = 1
		for _, who := range []string{"A", "B"} {
			for i := g.Range(1, 8); i > 0; i-- {
				p.add(int64(g.Intn(20000)), who, []string{"good", "good", "nilmsg", "nilconn", "deadconn"}[g.Intn(5)])
			}
		}
		return
	}
	p.P["mtu"] = []int{80, 120, 300, 300, 2048}[g.Intn(5)]
	p.P["codec"] = g.Intn(codecCount + 2)
	if (p.P["codec"] == codecGOB || p.P["codec"] == codecJSON) && p.P["mtu"] < 200 {
		p.P["mtu"] = 300
	}
	if g.Intn(3) > 0 {
		p.P["procs"] = g.Range(1, 1<<20)
	}
	p.P["unix"] = g.Intn(3) / 2
	p.P["small"] = []int{0, 0, 1, 3}[g.Intn(4)]
	p.P["clients"] = g.Range(1, 2)
	p.P["eps"] = g.Range(1, 3)
	tame(g, p, p.P["mtu"])
	span := []int{1000, 100000, 2000000}[g.Intn(3)]
	who := func() string {
		if g.Intn(3) > 0 {
			return fmt.Sprintf("S%d", g.Intn(p.P["eps"]))
		}
		return fmt.Sprintf("C%d", g.Intn(p.P["clients"]))
	}
	count := g.Range(3, 24)
	if genRush(g, p, 40) {
		count = g.Range(100, 400)
	}
	for i := count; i > 0; i-- {
		p.add(int64(g.Intn(span)), who(), "good", genSizes(g, p.P["mtu"]), g.Intn(p.P["clients"]))
	}
	for i := g.Range(1, 10); i > 0; i-- {
		p.Ops = append(p.Ops, Op{At: int64(g.Intn(span)), Who: who(), K: badKinds[g.Intn(len(badKinds))],
			A: []int{1, 1, 2, 3, 4, 5, 8, 16, 100, 5000}[g.Intn(10)], B: g.Intn(p.P["clients"]), C: g.Intn(8)})
	}
	if g.Intn(2) == 0 {
		// the connection of client 0 fails
		switch g.Intn(6) {
		case 0:
			p.add(int64(g.Intn(span)), "net", "reset", 0)
		case 1:
			p.add(int64(g.Intn(span)), "net", "close", g.Intn(2))
		default:
			p.add(0, "fail", []string{"hard", "soft", "soft"}[g.Intn(3)], g.Intn(2)|g.Intn(2), g.Intn(1500))
		}
	}
	for i := g.Intn(3); i > 0; i-- {
		p.add(int64(g.Intn(span)), "net", "stall", g.Intn(2), g.Range(1, 2000), g.Intn(2))
	}
}

// badValue is something the codec does not accept.
func badValue(codec, k int) interface{} {
	switch codec {
	case codecJSON, codecGOB:
		if codec == codecGOB && k%8 == 6 {
			k = 0 // a complex number can be encoded
		}
		return []interface{}{func() {}, make(chan int), struct{ C chan int }{make(chan int)}, struct{ F func() }{func() {}},
			map[string]func(){"x": nil}, []chan int{nil}, complex(1, 2), &struct{ C chan int }{}}[k%8]
	case codecString:
		return []interface{}{[]byte("bytes"), 7, Msg{1, []byte("x")}, &Msg{}, []string{"x"}, 1.5, true, func() {}}[k%8]
	}
	return []interface{}{"a string", 7, Msg{1, []byte("x")}, &Msg{}, [4]byte{1, 2, 3, 4}, 1.5, true, func() {}}[k%8]
}

// runC17Ref is the same on a connection that passes references.
func runC17Ref(h *H) {
	names := []string{"A", "B"}
	var stk [2]*Stk
	var ep [2]*EP
	var sent [2][]*int
	var got [2]int
	var dead ustack.TransportConnection
	ended := 0
	for i := range names {
		i := i
		stk[i] = h.newStk(names[i], 0)
		ep[i] = newEP("ep", 0, 0)
		stk[i].OnEv = func(e Ev) {
			if e.Type == ustack.UStackEventConnectionClosed && e.Conn != dead {
				ended++
			}
		}
		h.Must(names[i], "build", func() {
			h.recvLoop(names[i], ep[i], true, func(d ustack.EndPointData) {
				h.Obs()
				if got[i] >= len(sent[1-i]) || d.GetData() != interface{}(sent[1-i][got[i]]) {
					h.Fail("unexpected-message", "%s: delivery %d is %v", names[i], got[i], d.GetData())
					return
				}
				got[i]++
			})
			stk[i].U.AddEndPoint(ep[i])
			stk[i].U.AddTransport(ustack.NewReferenceTransport("r").SetAddress("ref17").ForServer(i == 0))
			stk[i].U.Run()
		})
	}
	if !h.Wait(20*sec, func() bool { return len(stk[0].Conns) > 0 && len(stk[1].Conns) > 0 }) {
		h.Fail("no-connection", "no reference connection within 20 s")
	}
	// a connection that is gone
	h.Must("A", "dead", func() {
		t := ustack.NewReferenceTransport("x").SetAddress("ref17x").ForServer(true)
		stk[0].U.AddTransport(t)
		h.Wait(5*sec, func() bool { return len(stk[0].Conns) > 1 })
		if len(stk[0].Conns) > 1 {
			dead = stk[0].Conns[1]
			stk[0].U.DeleteTransport(t)
		}
	})
	start := zzsim.NowNano()
	good := func(i int) {
		x := new(int)
		*x = len(sent[i])
		sent[i] = append(sent[i], x)
		send(ep[i], stk[i].Conns[0], x)
	}
	var done []*bool
	for i := range names {
		i := i
		done = append(done, h.actor(names[i], names[i], start, func(o Op) {
			if o.K != "good" {
				zzsim.Count("fault.unsendable-"+o.K, 1)
			}
			switch o.K {
			case "good":
				good(i)
			case "nilmsg":
				send(ep[i], stk[i].Conns[0], nil)
			case "nilconn":
				zzsim.To(ep[i].GetTxChannel()).Send(-100, ustack.NewEndPointData().SetData(new(int)))
			case "deadconn":
				if dead != nil && i == 0 {
					send(ep[i], dead, new(int))
				}
			}
		}))
	}
	h.Wait(60*sec, func() bool { return *done[0] && *done[1] })
	if !*done[0] || !*done[1] {
		h.Fail("send-blocked", "a sender blocked for 60 s")
	}
	for i := range names {
		i := i
		h.Must(names[i], "final", func() { good(i) })
	}
	if !h.Wait(20*sec, func() bool { return got[0] == len(sent[1]) && got[1] == len(sent[0]) }) {
		h.Fail("lost-message", "only %d of %d and %d of %d objects arrived", got[0], len(sent[1]), got[1], len(sent[0]))
	}
	h.Sleep(sec)
	if ended > 0 {
		h.Fail("connection-ended", "a message that cannot be sent ended the connection")
	}
}

func runC17(h *H) {
	if h.p("ref") == 1 {
		runC17Ref(h)
		return
	}
	codec := h.p("codec")
	unix := h.p("unix") == 1
	procs := procsFrom(h.p("procs"))
	base := 0
	if has(procs, "session") {
		base = 5
	}
	nc := h.p("clients")
	l := newLedger(h, codec)
	type client struct {
		stk         *Stk
		ep          *EP
		conn, sconn ustack.TransportConnection
		pair        *snet.Pair
		fails       bool
	}
	cl := make([]*client, nc)
	known := map[ustack.TransportConnection]int{}
	breaking := func(o Op) bool {
		return o.K == "reset" || o.K == "close" || o.K == "hard" || o.K == "soft"
	}
	h.Net.OnPair = func(p *snet.Pair) {
		for i := 0; i < nc; i++ {
			if p.ClientNode == fmt.Sprintf("C%d", i) && cl[i].pair == nil {
				cl[i].pair = p
				if i == 0 {
					for _, o := range h.ops("fail") {
						switch o.K {
						case "hard":
							p.FailWrite(o.A, int64(o.B))
						case "soft":
							p.FailWriteSoft(o.A, int64(o.B))
						}
					}
				}
			}
		}
	}
	ended := map[ustack.TransportConnection]bool{}
	onEv := func(e Ev) {
		if e.Type == ustack.UStackEventConnectionClosed {
			ended[e.Conn] = true
		}
	}
	empty := func(x interface{}) bool {
		b, ok := unpack(codec, x)
		return ok && len(b) == 0
	}
	// what reaches a codec from below and what it delivers
	seen, out := map[string]int{}, map[string]int{}
	under := func(node string) *Stk {
		s := h.newStk(node, h.p("mtu"))
		s.Under = newSpy("under")
		s.Under.Up = func(c ustack.Context) bool {
			if u := c.GetBuffer(); u != nil && u.ReadableLength() > 0 {
				seen[node]++
			}
			return true
		}
		return s
	}
	srv := under("S").framed(codec, procs, 0)
	var news []ustack.TransportConnection
	srv.OnEv = func(e Ev) {
		onEv(e)
		if e.Type == ustack.UStackEventNewConnection {
			news = append(news, e.Conn)
		}
	}
	var eps []*EP
	h.Must("S", "build", func() {
		for i := 0; i < h.p("eps"); i++ {
			e := newEP(fmt.Sprintf("ep%d", i), base+i, h.p("small"))
			eps = append(eps, e)
			i := i
			h.recvLoop("S", e, true, func(d ustack.EndPointData) {
				if empty(d.GetData()) {
					return
				}
				out["S"]++
				k, ok := known[d.GetConnection()]
				l.arrive(fmt.Sprintf("S%d", i), d.GetData(), func(m *lmsg) bool { return i == 0 && ok && m.tag == 100+k })
			})
			srv.U.AddEndPoint(e)
		}
		srv.U.AddTransport(newTransport(unix, true, "t", addrFor(unix, 0)))
		srv.U.Run()
	})
	for i := 0; i < nc; i++ {
		i := i
		c := &client{}
		cl[i] = c
		name := fmt.Sprintf("C%d", i)
		c.stk = under(name).framed(codec, procs, 0)
		c.stk.OnEv = func(e Ev) {
			onEv(e)
			if e.Type == ustack.UStackEventNewConnection && c.conn == nil {
				c.conn = e.Conn
			}
		}
		h.Must(name, "build", func() {
			c.ep = newEP("ep", base, 0)
			h.recvLoop(name, c.ep, true, func(d ustack.EndPointData) {
				if empty(d.GetData()) {
					return
				}
				out[name]++
				l.arrive(name, d.GetData(), func(m *lmsg) bool { return m.tag < 100 && m.tag%10 == i })
			})
			c.stk.U.AddEndPoint(c.ep)
			c.stk.U.AddTransport(newTransport(unix, false, "t", addrFor(unix, 0)))
			c.stk.U.Run()
		})
		if !h.Wait(20*sec, func() bool { return c.conn != nil && len(news) > i }) {
			h.Fail("no-connection", "no connection within 20 s")
		}
		c.sconn = news[i]
		known[c.sconn] = i
	}
	for _, o := range h.P.Ops {
		if breaking(o) {
			cl[0].fails = true
		}
	}
	room := srv.room()
	// a connection that has been closed
	dead := map[string]ustack.TransportConnection{}
	mkDead := func(node string) ustack.TransportConnection {
		return dead[node]
	}
	needDead := false
	for _, o := range h.P.Ops {
		needDead = needDead || o.K == "deadconn"
	}
	if needDead {
		// one more client, gone again
		x := h.newStk("X", h.p("mtu")).framed(codec, procs, 0)
		h.Must("X", "build", func() {
			x.U.AddEndPoint(newEP("ep", base, 0))
			x.U.AddTransport(newTransport(unix, false, "t", addrFor(unix, 0)))
			x.U.Run()
		})
		if !h.Wait(20*sec, func() bool { return len(x.Conns) > 0 && len(news) > nc }) {
			h.Fail("no-connection", "no connection within 20 s")
		}
		dead["S"] = news[nc]
		h.Must("X", "close", func() { x.Conns[0].Close() })
		h.Wait(5*sec, func() bool { return dead["S"].Closed() })
	}
	start := zzsim.NowNano()
	seq := 0
	act := func(node string, e *EP, tag int, target func(k int) (ustack.TransportConnection, bool)) func(o Op) {
		return func(o Op) {
			c, fails := target(o.B)
			if tag < 100 {
				tag = tag/10*10 + o.B
			}
			seq++
			put := func(c ustack.TransportConnection, x interface{}) {
				d := ustack.NewEndPointData().SetData(x).SetDestinationSession(base)
				if c != nil {
					d.SetConnection(c)
				}
				zzsim.To(e.GetTxChannel()).Send(-100, d)
			}
			valid := pack(codec, seq, payload(900+tag, seq, 20))
			if o.K != "good" {
				zzsim.Count("fault.unsendable-"+o.K, 1)
			}
			switch o.K {
			case "good":
				m, x := l.make(lane(tag, node), tag, seq, o.A, room)
				if m == nil {
					return
				}
				m.must = !fails
				put(c, x)
			case "over":
				// the smallest message that is at least A bytes too large
				size := room - 80
				if size < 1 {
					size = 1
				}
				for encodedLen(codec, seq, payload(900+tag, seq, size)) < room+o.A {
					size++
				}
				put(c, pack(codec, seq, payload(900+tag, seq, size)))
			case "type":
				put(c, badValue(codec, o.C))
			case "nilconn":
				put(nil, valid)
			case "nilmsg":
				put(c, nil)
			case "nilptr":
				if codec == codecJSON {
					return // null is a JSON message
				}
				put(c, (*Msg)(nil))
			case "deadconn":
				if d := mkDead(node); d != nil {
					put(d, valid)
				}
			case "empty":
				switch codec {
				case codecString:
					put(c, "")
				case codecBytes:
					put(c, []byte{})
				}
			}
		}
	}
	var done []*bool
	for i, e := range eps {
		done = append(done, h.actor("S", fmt.Sprintf("S%d", i), start, act("S", e, i*10, func(k int) (ustack.TransportConnection, bool) {
			return cl[k].sconn, cl[k].fails
		})))
	}
	for i, c := range cl {
		c := c
		done = append(done, h.actor(fmt.Sprintf("C%d", i), fmt.Sprintf("C%d", i), start, act("C", c.ep, 100+i, func(int) (ustack.TransportConnection, bool) {
			return c.conn, c.fails
		})))
	}
	quiet := start
	done = append(done, h.actor("main", "net", start, func(o Op) {
		now := zzsim.NowNano()
		switch o.K {
		case "reset":
			cl[0].pair.Reset()
		case "close":
			zzsim.Count("fault.close", 1)
			if o.A == 0 {
				h.Go("S", "close", func() { cl[0].sconn.Close() })
			} else {
				h.Go("C0", "close", func() { cl[0].conn.Close() })
			}
		case "stall":
			cl[o.A%nc].pair.Stall(o.C, now+int64(o.B)*ms)
			if e := now + int64(o.B)*ms; e > quiet {
				quiet = e
			}
		}
	}))
	allDone := func() bool {
		for _, d := range done {
			if !*d {
				return false
			}
		}
		return true
	}
	if !h.Wait(600*sec, allDone) {
		h.Fail("send-blocked", "a sender blocked for 600 s: %v", zzsim.TaskNames(h.Node("S")))
	}
	if d := quiet - zzsim.NowNano(); d > 0 {
		h.Sleep(d)
	}
	l.settle(40*sec, "although its connection never failed")
	// a torn frame ends its connection
	if p := cl[0].pair; p != nil {
		for dir, c := range []ustack.TransportConnection{cl[0].conn, cl[0].sconn} {
			at := p.FailedAt(dir)
			if at < 0 {
				continue
			}
			h.Obs()
			if !h.Wait(10*sec, func() bool { return ended[c] && c.Closed() }) {
				h.Fail("torn-open", "a write failed after %d bytes but the connection was not closed", at)
			}
			if n := p.Sent(dir); n != at {
				h.Fail("bytes-after-torn-frame", "a write failed after %d bytes, but %d further bytes were sent on the connection", at, n-at)
			}
		}
	}
	// everybody else is served as before
	for i, c := range cl {
		if c.fails {
			continue
		}
		h.Must("S", "send", func() {
			for j, e := range eps {
				act("S", e, j*10, func(int) (ustack.TransportConnection, bool) { return c.sconn, false })(Op{K: "good", A: 40, B: i})
			}
		})
		h.Must(fmt.Sprintf("C%d", i), "send", func() {
			act("C", c.ep, 100+i, func(int) (ustack.TransportConnection, bool) { return c.conn, false })(Op{K: "good", A: 40, B: i})
		})
	}
	l.settle(40*sec, "after messages that could not be sent")
	h.Sleep(2 * sec)
	for i := -1; i < nc; i++ {
		node := "S"
		if i >= 0 {
			node = fmt.Sprintf("C%d", i)
		}
		h.Obs()
		if seen[node] > out[node] {
			h.Fail("part-received", "%s received %d messages from its peers but only %d can be decoded: parts of messages that cannot be sent were sent", node, seen[node], out[node])
		}
	}
}
