package main

import (
	"fmt"

	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// C02: connections never leak into one another.

func init() {
	register(&Scenario{ID: "C02", Gen: genC02, Run: runC02,
		Min: map[string]int{"codec": 0, "procs": 0, "cache": 0, "unix": 0, "small": 0, "listener": 1, "slow": 0, "same": 0, "clients": 2}})
}

func genC02(g *zzsim.Rng, p *Plan) {
	defer genLull(g, p)
	p.P["mtu"] = []int{64, 200, 300, 2048}[g.Intn(4)]
	p.P["codec"] = []int{codecBytes, codecString, codecGeneric, codecBytes, codecJSON, codecGOB, codecGenericAll}[g.Intn(7)]
	if (p.P["codec"] == codecJSON || p.P["codec"] == codecGOB) && p.P["mtu"] < 250 {
		p.P["mtu"] = 300
	}
	if g.Intn(2) > 0 {
		p.P["procs"] = g.Range(1, 1<<20)
	}
	if g.Intn(3) == 0 {
		p.P["cache"] = []int{1, 16, 128, 1024, 10000}[g.Intn(4)]
	}
	n := g.Range(2, 4)
	if g.Intn(8) == 0 {
		n = g.Range(5, 10)
	}
	p.P["clients"] = n
	p.P["unix"] = g.Intn(3) // 0 TCP, 1 unix, 2 both
	p.P["small"] = []int{0, 0, 1, 3}[g.Intn(4)]
	p.P["listener"] = g.Intn(2)
	p.P["same"] = g.Intn(8) / 7
	if g.Intn(5) == 0 {
		p.P["slow"] = g.Range(1, 20)
	}
	room := p.P["mtu"]
	more := 1
	if n < 5 && genRush(g, p, 40) {
		more = 20
		delete(p.P, "slow")
	}
	tame(g, p, room)
	span := []int64{1000, 100000, 2000000}[g.Intn(3)]
	for c := 0; c < n; c++ {
		who := fmt.Sprintf("C%d", c)
		late := int64(0)
		if g.Intn(3) == 0 {
			late = int64(g.Intn(int(span)))
		}
		p.add(late, "start", "start", c)
		for i := g.Intn(9 * more); i > 0; i-- {
			p.add(late+int64(g.Intn(int(span))), who, "send", genSizes(g, room))
		}
		for i := g.Intn(7 * more); i > 0; i-- {
			p.add(late+int64(g.Intn(int(span))), fmt.Sprintf("S%d", c), "send", genSizes(g, room))
		}
		if g.Intn(3) == 0 {
			p.add(int64(g.Intn(int(span))), "net", "stall", c, g.Range(1, 3000), g.Intn(2))
		}
		if g.Intn(6) == 0 {
			p.add(int64(g.Intn(int(span))), "net", "pause", c, g.Range(1, 3000))
		}
		if g.Intn(6) == 0 {
			p.add(int64(g.Intn(int(span))), "net", "cut", c, g.Range(1, 3000))
		}
	}
	if g.Intn(2) == 0 {
		c := g.Intn(n)
		at := int64(g.Intn(int(span)))
		switch g.Intn(5) {
		case 0:
			p.add(at, "net", "reset", c)
		case 1:
			p.add(at, "net", "crash", c)
		case 2:
			p.add(0, "net", "failwrite", c, g.Intn(1500), g.Intn(2))
		case 3:
			p.add(at, "net", "close", c)
		case 4:
			p.add(at, "net", "sclose", c)
		}
	}
}

func runC02(h *H) {
	n := h.p("clients")
	codec := h.p("codec")
	procs := procsFrom(h.p("procs"))
	session := 0
	if has(procs, "session") {
		session = 5
	}
	mode := h.p("unix")
	isUnix := func(c int) bool { return mode == 1 || (mode == 2 && c%2 == 1) }
	type cl struct {
		name     string
		stk      *Stk
		ep       *EP
		conn     ustack.TransportConnection // the client's
		sconn    ustack.TransportConnection // the server's
		up, down *stream
		pair     *snet.Pair
		broken   bool
		queued   [][]byte // for the client, sent once its connection is known
	}
	cs := make([]*cl, n)
	for i := range cs {
		cs[i] = &cl{name: fmt.Sprintf("C%d", i)}
		cs[i].up = &stream{h: h, name: cs[i].name + "->S", codec: codec}
		cs[i].down = &stream{h: h, name: "S->" + cs[i].name, codec: codec}
	}
	for _, o := range h.ops("net") {
		switch o.K {
		case "reset", "crash", "failwrite", "close", "sclose":
			cs[o.A].broken = true
		}
	}
	h.Net.OnPair = func(p *snet.Pair) {
		for i, c := range cs {
			if c.name != p.ClientNode || c.pair != nil {
				continue
			}
			c.pair = p
			for _, o := range h.ops("net") {
				if o.K == "failwrite" && o.A == i {
					p.FailWrite(o.C, int64(o.B))
				}
			}
		}
	}
	srv := h.newStk("S", h.p("mtu")).framed(codec, procs, h.p("cache"))
	var sep *EP
	byConn := map[ustack.TransportConnection]*cl{}
	h.Must("S", "build", func() {
		sep = newEP("ep", session, h.p("small"))
		h.recvLoop("S", sep, h.p("listener") == 1, func(d ustack.EndPointData) {
			c := byConn[d.GetConnection()]
			if c == nil {
				// the first message of a connection introduces the client
				b, ok := unpack(codec, d.GetData())
				if !ok {
					h.Fail("wrong-type", "delivered message has type %T", d.GetData())
				}
				for _, x := range cs {
					if string(b) == "hello "+x.name {
						c = x
					}
				}
				if c == nil || c.sconn != nil {
					h.Fail("unexpected-message", "first message on a connection: %s", brief(b))
					return
				}
				c.sconn = d.GetConnection()
				byConn[c.sconn] = c
				h.Obs()
				return
			}
			c.up.arrive(d.GetData())
			if m := h.p("slow"); m > 0 {
				h.Sleep(int64(m) * ms)
			}
		})
		srv.U.AddEndPoint(sep)
		if mode != 1 {
			srv.U.AddTransport(newTransport(false, true, "t", addrFor(false, 0)))
		}
		if mode != 0 {
			srv.U.AddTransport(newTransport(true, true, "u", addrFor(true, 0)))
		}
		srv.U.Run()
	})
	room := srv.room()
	start := zzsim.NowNano()
	seq := 0
	h.actor("main", "start", start, func(o Op) {
		c := cs[o.A]
		s := h.newStk(c.name, h.p("mtu")).framed(codec, procs, h.p("cache"))
		c.stk = s
		h.Go(c.name, "build", func() {
			c.ep = newEP("ep", session, h.p("small"))
			s.OnEv = func(e Ev) {
				if e.Type == ustack.UStackEventNewConnection && c.conn == nil {
					c.conn = e.Conn
				}
			}
			h.recvLoop(c.name, c.ep, h.p("listener") == 1, func(d ustack.EndPointData) {
				if d.GetConnection() != c.conn {
					h.Fail("wrong-connection", "message delivered with a connection nobody announced")
				}
				c.down.arrive(d.GetData())
			})
			s.U.AddEndPoint(c.ep)
			u := isUnix(o.A)
			s.U.AddTransport(newTransport(u, false, "t", addrFor(u, 0)))
			s.U.Run()
		})
	})
	var done []*bool
	wait := func(c *cl, f func() bool) bool {
		return h.Wait(30*sec, func() bool { return f() || c.broken && h.Node(c.name).Dead })
	}
	for i, c := range cs {
		i, c := i, c
		hello := false
		sendUp := func(id int, b []byte) {
			if !hello {
				hello = true
				send(c.ep, c.conn, pack(codec, 0, []byte("hello "+c.name)))
			}
			if b != nil {
				c.up.expect(b)
				send(c.ep, c.conn, pack(codec, id, b))
			}
		}
		fin := new(bool)
		done = append(done, fin)
		d2 := h.actor(c.name, c.name, start, func(o Op) {
			if !wait(c, func() bool { return c.conn != nil }) || c.conn == nil {
				return
			}
			seq++
			id := seq
			b := fit(codec, i, id, o.A, room)
			if h.p("same") == 1 { // all clients say the same
				id = len(c.up.sent) / 2
				b = fit(codec, 9, id, minTagged+10, room)
			}
			if b != nil {
				sendUp(id, b)
			}
		})
		h.Go(c.name, "fin", func() {
			h.Wait(300*sec, func() bool { return *d2 })
			if *d2 && c.conn != nil {
				sendUp(0, nil)
			} else if wait(c, func() bool { return c.conn != nil }) && c.conn != nil {
				sendUp(0, nil)
			}
			*fin = *d2
		})
		done = append(done, h.actor("S", fmt.Sprintf("S%d", i), start, func(o Op) {
			if !wait(c, func() bool { return c.sconn != nil }) || c.sconn == nil {
				return
			}
			seq++
			id := seq
			b := fit(codec, 100+i, id, o.A, room)
			if h.p("same") == 1 {
				id = len(c.down.sent) / 2
				b = fit(codec, 109, id, minTagged+10, room)
			}
			if b != nil {
				c.down.expect(b)
				send(sep, c.sconn, pack(codec, id, b))
			}
		}))
	}
	quiet := start
	until := func(d int) {
		if e := zzsim.NowNano() + int64(d)*ms; e > quiet {
			quiet = e
		}
	}
	netDone := h.actor("main", "net", start, func(o Op) {
		c := cs[o.A]
		if c.pair == nil {
			return
		}
		switch o.K {
		case "stall":
			c.pair.Stall(o.C, zzsim.NowNano()+int64(o.B)*ms)
			until(o.B)
		case "cut":
			h.Net.Cut("S", c.name)
			zzsim.After(int64(o.B)*ms, func() { h.Net.Heal("S", c.name) })
			until(o.B)
		case "pause":
			nd := h.Node(c.name)
			zzsim.Count("fault.pause", 1)
			zzsim.PauseNode(nd)
			zzsim.After(int64(o.B)*ms, func() { zzsim.ResumeNode(nd) })
			until(o.B)
		case "reset":
			c.pair.Reset()
		case "crash":
			zzsim.Count("fault.crash", 1)
			zzsim.KillNode(h.Node(c.name))
			h.Net.CrashNode(c.name, false)
		case "close":
			if k := c.conn; k != nil {
				h.Go(c.name, "close", func() { k.Close() })
			}
		case "sclose":
			if k := c.sconn; k != nil {
				h.Go("S", "close", func() { k.Close() })
			}
		}
	})
	h.Wait(600*sec, func() bool {
		if !*netDone {
			return false
		}
		for i, c := range cs {
			if !c.broken && (!*done[2*i] || !*done[2*i+1]) {
				return false
			}
		}
		return true
	})
	if d := quiet - zzsim.NowNano(); d > 0 {
		h.Sleep(d)
	}
	var live []*stream
	for i, c := range cs {
		if c.broken {
			continue
		}
		if !*done[2*i] || !*done[2*i+1] {
			h.Fail("send-blocked", "sender of %s blocked for 600 s on a healthy connection", c.name)
		}
		live = append(live, c.up, c.down)
	}
	h.settle(40*sec, live...)
	for _, c := range cs {
		if !c.broken && c.sconn == nil {
			h.Wait(20*sec, func() bool { return c.sconn != nil })
			if c.sconn == nil {
				h.Fail("lost-message", "%s: hello never delivered", c.name)
			}
		}
	}
	h.Sleep(2 * sec)
}
