package main

import (
	"fmt"

	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// C08: a silent peer is reported lost, once, on time.

func init() {
	register(&Scenario{ID: "C08", Gen: genC08, Run: runC08,
		Min: map[string]int{"unix": 0, "react": 0, "ls": 1, "traffic": 0}})
}

func genC08(g *zzsim.Rng, p *Plan) {
	n := g.Range(1, 5)
	crowd := g.Intn(15) == 0
	if crowd {
		n = g.Range(6, 20)
	}
	p.P["n"] = n
	p.P["unix"] = g.Intn(3) / 2
	switch g.Intn(6) {
	case 0: // defaults
	default:
		p.P["T"] = []int{1, 2, 3, 5, 8, 12}[g.Intn(6)]
		if !crowd && g.Intn(20) == 0 {
			p.P["T"] = []int{40, 70, 150, 300}[g.Intn(4)]
		}
		p.P["I"] = g.Range(1, 4)
		p.P["set"] = 1
		p.P["close"] = g.Intn(2)
	}
	if p.P["set"] == 0 {
		p.P["T"], p.P["I"], p.P["close"] = 30, 1, 1
	}
	T := p.P["T"]
	p.P["react"] = g.Intn(4)
	p.P["ls"] = g.Range(1, 2)
	wide := genWide(g, p)
	p.P["traffic"] = g.Intn(3)
	if T > 30 || crowd {
		tame(g, p, 6000)
	}
	if T > 30 {
		p.P["traffic"] = 0
		if n > 3 {
			n = 3
			p.P["n"] = n
		}
	}
	span := int64(T)*[]int64{2, 4, 8}[g.Intn(3)] + int64(g.Intn(10))
	if span > 100 {
		span = 100
		if T > 40 {
			span = 2*int64(T) + 20
		}
	}
	p.P["span"] = int(span)
	micro := func(s int64) int { return int(s * 1000000) }
	for i := 0; i < n; i++ {
		raw := g.Intn(2)
		p.P[fmt.Sprintf("raw%d", i)] = raw
		late := int64(0)
		if g.Intn(2) == 0 {
			late = int64(g.Intn(3000000))
		}
		p.add(late, "start", "start", i)
		if raw == 1 {
			// heartbeats at chosen moments
			at := late
			for at < span*1000000 {
				switch g.Intn(8) {
				case 0: // around the timeout
					at += int64(T)*1000000 - 50000 + int64(g.Intn(100000))
				case 1:
					at += int64(T)*1000000 + int64(g.Intn(2500000))
				case 2:
					at += int64(T)*1000000 + 2000000 + int64(g.Intn(2500000))
				case 3:
					at += int64(g.Intn(2000))
				default:
					at += int64(g.Intn(micro(int64(T))))
				}
				p.add(at, fmt.Sprintf("R%d", i), "beat")
			}
			// application messages do not stand in for heartbeats
			if g.Intn(2) == 0 {
				at, big := late, g.Intn(2)
				for at < span*1000000 {
					at += int64(g.Intn(2000000 * (1 + T/30)))
					p.add(at, fmt.Sprintf("A%d", i), "talk", g.Range(1, 20+big*(200*wide-30)))
				}
			}
			continue
		}
		p.P[fmt.Sprintf("I%d", i)] = []int{1, 1, 1, 2, T, T + 1, T + 4}[g.Intn(7)]
		for j := g.Intn(4); j > 0; j-- {
			at := int64(g.Intn(micro(span)))
			k := []string{"cut", "pause", "stall", "crash", "silent"}[g.Intn(5)]
			d := g.Intn(3 * T * 1000)
			if g.Intn(3) == 0 {
				d = T*1000 - 1500 + g.Intn(5000)
			}
			p.add(at, "net", k, i, d, g.Intn(2))
		}
	}
	if g.Intn(3) == 0 { // all of them at the same time
		p.add(int64(g.Intn(micro(span))), "net", "cutall", 0, T*1000+g.Intn(8000))
	}
}

func runC08(h *H) {
	n := h.p("n")
	T := int64(h.p("T")) * sec
	unix := h.p("unix") == 1
	network := "tcp"
	if unix {
		network = "unix"
	}
	addr := addrFor(unix, 0)
	closeOnLost := h.p("close") == 1
	mk := func(node string, iv int, cl bool, set bool) (*Stk, *hbMon) {
		m := h.newHBMon(node, T, cl)
		hb := ustack.NewHeartbeat()
		if set {
			hb.SetOption("IntervalInSecond", iv).SetOption("TimeoutInSecond", h.p("T")).SetOption("CloseOnLost", cl)
		}
		s := h.newStk(node, h.mtu(200)).codec(codecBytes).add(hb)
		s.U.AppendDataProcessor(m.spy())
		s.add(ustack.NewFrameDecoder())
		return s, m
	}
	mons := []*hbMon{}
	srv, smon := mk("S", h.p("I"), closeOnLost, h.p("set") == 1)
	mons = append(mons, smon)
	var sep *EP
	seen := 0
	srv.OnEv = func(e Ev) {
		smon.event(e)
		if e.Type != ustack.UStackEventHeartbeatLost || e.Conn == nil {
			return
		}
		switch h.p("react") {
		case 1: // say something on the lost connection
			send(sep, e.Conn, payload(9, seen, 30))
			seen++
		case 2: // close it
			if k := smon.by[e.Conn]; k != nil {
				k.app = zzsim.NowNano()
			}
			e.Conn.Close()
		case 3: // ask the stack
			srv.U.GetEndPoint()
			srv.U.GetTransport()
		}
	}
	h.Must("S", "build", func() {
		if h.p("ls") > 1 {
			srv.U.SetEventListener(func(e ustack.Event) { zzsim.S(-101) })
		}
		sep = newEP("ep", 0, 0)
		h.recvLoop("S", sep, true, func(d ustack.EndPointData) {})
		srv.U.AddEndPoint(sep)
		srv.U.AddTransport(newTransport(unix, true, "t", addr))
		srv.U.Run()
	})
	start := zzsim.NowNano()
	type peer struct {
		name  string
		stk   *Stk
		mon   *hbMon
		conn  snetConn
		dead  bool
		gone  bool // crashed
		pairs []*snet.Pair
	}
	ps := make([]*peer, n)
	for i := range ps {
		ps[i] = &peer{name: fmt.Sprintf("P%d", i)}
	}
	h.Net.OnPair = func(p *snet.Pair) {
		for _, x := range ps {
			if x.name == p.ClientNode {
				x.pairs = append(x.pairs, p)
			}
		}
	}
	h.actor("main", "start", start, func(o Op) {
		x := ps[o.A]
		if x.dead {
			return
		}
		if h.p(fmt.Sprintf("raw%d", o.A)) == 1 {
			h.Go(x.name, "raw", func() {
				c, err := snet.Dial(network, addr)
				if err != nil {
					x.dead = true // cut off from the start
					return
				}
				x.conn = c
				b := make([]byte, 256)
				for {
					if _, err := c.Read(b); err != nil {
						c.Close()
						x.dead = true
						return
					}
				}
			})
			return
		}
		x.stk, x.mon = mk(x.name, h.p(fmt.Sprintf("I%d", o.A)), false, true)
		x.mon.exempt = h.p(fmt.Sprintf("I%d", o.A)) == 0
		mons = append(mons, x.mon)
		x.stk.OnEv = x.mon.event
		h.Go(x.name, "build", func() {
			ep := newEP("ep", 0, 0)
			h.recvLoop(x.name, ep, true, func(d ustack.EndPointData) {})
			x.stk.U.AddEndPoint(ep)
			x.stk.U.AddTransport(newTransport(unix, false, "t", addr))
			x.stk.U.Run()
			if t := h.p("traffic"); t > 0 {
				h.Go(x.name, "traffic", func() {
					for k := 0; k < 20*t; k++ {
						h.Sleep(900 * ms)
						if len(x.mon.conns) > 0 {
							send(ep, x.mon.conns[0].conn, payload(o.A, k, []int{40, 1, 190, 5, 120}[k%(4*t-3)]))
						}
					}
				})
			}
		})
	})
	for i := range ps {
		x := ps[i]
		h.actor(x.name, fmt.Sprintf("R%d", i), start, func(o Op) {
			if x.conn != nil && !x.dead {
				x.conn.Write([]byte{0, 0, 0, 1, ustack.HeartbeatSelfMessageTag})
			}
		})
		h.actor(x.name, fmt.Sprintf("A%d", i), start, func(o Op) {
			if x.conn != nil && !x.dead {
				b := append([]byte{0, 0, byte((o.A + 1) >> 8), byte(o.A + 1), ustack.HeartbeatUplayerMessageTag}, payload(i, o.A, o.A)...)
				x.conn.Write(b)
			}
		})
	}
	quiet := int64(0)
	netDone := h.actor("main", "net", start, func(o Op) {
		d := int64(o.B) * ms
		if e := zzsim.NowNano() + d; e > quiet {
			quiet = e
		}
		x := ps[o.A]
		cut := func(x *peer) {
			h.Net.Cut("S", x.name)
			zzsim.After(d, func() { h.Net.Heal("S", x.name) })
		}
		switch o.K {
		case "cutall":
			for _, x := range ps {
				cut(x)
			}
		case "cut":
			cut(x)
		case "stall":
			for _, p := range x.pairs {
				p.Stall(o.C, zzsim.NowNano()+d)
			}
		case "pause":
			if x.dead || x.mon == nil {
				return
			}
			nd := h.Node(x.name)
			zzsim.Count("fault.pause", 1)
			x.mon.exempt = true
			zzsim.PauseNode(nd)
			zzsim.After(d, func() { zzsim.ResumeNode(nd) })
		case "crash", "silent":
			if x.dead {
				return
			}
			zzsim.Count("fault."+o.K, 1)
			x.dead, x.gone = true, true
			if x.mon != nil {
				x.mon.exempt = true
			}
			zzsim.KillNode(h.Node(x.name))
			h.Net.CrashNode(x.name, o.K == "silent")
		}
	})
	end := start + int64(h.p("span"))*sec
	for zzsim.NowNano() < end || !*netDone || zzsim.NowNano() < quiet {
		h.Sleep(777 * ms)
		for _, m := range mons {
			m.check()
			m.punctual()
		}
	}
	h.Sleep(T + 3*sec)
	for _, m := range mons {
		m.check()
		m.punctual()
	}
	// a connection that the heartbeat gives up is reported lost: nothing else
	// ends connections as long as no peer crashes
	gone := false
	for _, x := range ps {
		gone = gone || x.gone
	}
	if !gone {
		for _, k := range smon.conns {
			h.Obs()
			if k.endAt != 0 && k.app == 0 && len(k.lost) == 0 {
				h.Fail("closed-not-lost", "connection %d was closed by the stack but not reported lost", k.n)
			}
		}
	}
	// left open otherwise: nothing but its own peer, the application or the
	// network ends a connection of a stack that does not close on loss
	if !closeOnLost {
		for _, k := range smon.conns {
			h.Obs()
			if k.endAt != 0 && k.app == 0 && len(k.lost) > 0 {
				dead := false
				for _, x := range ps {
					if x.dead {
						dead = true
					}
				}
				if !dead {
					h.Fail("closed-on-lost", "connection %d was closed after it was lost although close-on-lost is not set", k.n)
				}
			}
		}
	}
	if h.p("react") == 1 && seen > 0 && !closeOnLost {
		zzsim.Count("reacted", 1)
	}
}
