package main

import (
	"fmt"

	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// C09: a live peer is never reported lost, and heartbeats stay invisible.

func init() {
	register(&Scenario{ID: "C09", Gen: genC09, Run: runC09,
		Min: map[string]int{"unix": 0, "slow": 0, "slowlost": 0, "ref": 0, "react": 0, "procs": 0}})
}

func genC09(g *zzsim.Rng, p *Plan) {
	n := g.Range(1, 4)
	if g.Intn(20) == 0 {
		n = g.Range(5, 16)
	}
	p.P["n"] = n
	p.P["unix"] = g.Intn(3) / 2
	T := []int{5, 6, 8, 12, 30}[g.Intn(5)]
	p.P["T"] = T
	p.P["set"] = 1
	if T == 30 && g.Intn(2) == 0 {
		p.P["set"] = 0 // defaults
	}
	p.P["I"] = g.Range(1, T-4)
	// hardly any room between interval and timeout: then without disturbances
	tight := g.Intn(4) == 0
	if tight {
		T = g.Range(2, 4)
		p.P["T"], p.P["set"] = T, 1
		p.P["I"] = g.Range(1, T-1)
	}
	wide := genWide(g, p)
	if p.P["set"] == 0 {
		p.P["I"] = 1
	}
	p.P["close"] = g.Intn(3) / 1 % 2
	if p.P["set"] == 0 {
		p.P["close"] = 1
	}
	p.P["ref"] = g.Intn(3) / 2
	p.P["react"] = g.Intn(3)
	if g.Intn(3) == 0 {
		p.P["procs"] = g.Intn(16)
	}
	if !tight && g.Intn(3) == 0 {
		p.P["slow"] = []int{1, 100, 400}[g.Intn(3)] // ms, listeners of begin and end events
	}
	if !tight && g.Intn(3) == 0 {
		p.P["slowlost"] = []int{500, 4000, 15000}[g.Intn(3)] // ms, listeners of losses
	}
	if p.Net.Window < 700 {
		p.Net.Window = 700
	}
	span := 2*T + g.Intn(4*T)
	if tight {
		span += 10
	}
	p.P["span"] = span
	for i := 0; i < n; i++ {
		late := 0
		if g.Intn(2) == 0 {
			late = g.Intn(3000000)
		}
		p.add(int64(late), "start", "start", i)
		for j := g.Intn(12); j > 0; j-- {
			p.add(int64(late+g.Intn(span*1000000)), fmt.Sprintf("%s%d", []string{"C", "S"}[g.Intn(2)], i), "send", g.Range(15, 150*wide))
		}
		if g.Intn(4) == 0 { // a burst
			b := late + g.Intn(span*1000000)
			for j := g.Range(5, 40); j > 0; j-- {
				p.add(int64(b+g.Intn(1000)), fmt.Sprintf("%s%d", []string{"C", "S"}[g.Intn(2)], i), "send", g.Range(15, 150*wide))
			}
		}
		// short disturbances that keep the gaps below the timeout
		at := late
		for j := g.Intn(3); j > 0 && !tight; j-- {
			at += g.Intn(span * 1000000 / 2)
			p.add(int64(at), "net", []string{"cut", "stall", "pause"}[g.Intn(3)], i, g.Intn((T-p.P["I"]-3)*1000+200), g.Intn(2))
			at += T * 1000000
		}
		switch g.Intn(5) {
		case 0:
			p.add(int64(late+g.Intn(span*1000000)), "net", []string{"cclose", "sclose", "crash", "reset", "delC"}[g.Intn(5)], i)
		case 1: // a real loss
			if i > 0 {
				p.add(int64(late+g.Intn(span*1000000)), "net", []string{"silent", "dead"}[g.Intn(2)], i)
			}
		}
	}
	if !tight && g.Intn(4) == 0 {
		var keep []Op
		for _, o := range p.Ops {
			if o.K != "cut" && o.K != "stall" && o.K != "pause" {
				keep = append(keep, o)
			}
		}
		p.Ops = keep
		p.add(int64(g.Intn(span*1000000)), "net", "pauseS", 0, g.Intn((T-p.P["I"]-3)*1000+200))
	}
}

func runC09(h *H) {
	n := h.p("n")
	T := int64(h.p("T")) * sec
	unix := h.p("unix") == 1
	addr := addrFor(unix, 0)
	cl := h.p("close") == 1
	l := newLedger(h, codecBytes)
	mk := func(node string) (*Stk, *hbMon) {
		m := h.newHBMon(node, T, cl)
		m.closedRule = true
		m.slowAll = true // punctuality is C08's matter
		hb := ustack.NewHeartbeat()
		if h.p("set") == 1 {
			hb.SetOption("IntervalInSecond", h.p("I")).SetOption("TimeoutInSecond", h.p("T")).SetOption("CloseOnLost", cl)
		}
		s := h.newStk(node, h.mtu(200)).codec(codecBytes)
		x := h.p("procs")
		if x&1 == 1 {
			s.add(mkProc("stat"))
		}
		s.add(hb)
		s.U.AppendDataProcessor(m.spy())
		if x&2 == 2 {
			s.add(mkProc("stat"))
		}
		if x&4 == 4 {
			s.add(mkProc("session")).add(mkProc("stat"))
		}
		if x&8 == 8 {
			s.add(mkProc("session")).add(mkProc("lboff"))
		}
		s.add(ustack.NewFrameDecoder())
		s.OnEv = func(e Ev) {
			m.event(e)
			if e.Conn == nil {
				return
			}
			if e.Type == ustack.UStackEventHeartbeatLost {
				switch h.p("react") {
				case 1:
					if k := m.by[e.Conn]; k != nil {
						k.app = zzsim.NowNano()
					}
					e.Conn.Close()
				}
				if d := h.p("slowlost"); d > 0 {
					h.Sleep(int64(d) * ms)
				}
			} else if d := h.p("slow"); d > 0 {
				h.Sleep(int64(d) * ms)
			}
		}
		return s, m
	}
	type peer struct {
		name    string
		stk     *Stk
		mon     *hbMon
		ep      *EP
		sconn   ustack.TransportConnection
		pairs   []*snet.Pair
		broken  bool
		mute    bool
		ended   bool
		dead    bool
		tp      ustack.Transport
		upSeq   int
		downSeq int
	}
	ps := make([]*peer, n)
	for i := range ps {
		ps[i] = &peer{name: fmt.Sprintf("P%d", i)}
	}
	for _, o := range h.ops("net") {
		switch o.K {
		case "cclose", "sclose", "crash", "reset", "delC", "silent", "dead":
			ps[o.A].broken = true
			// an endpoint writing to a peer that has vanished waits, and so do
			// its messages to others: not what is decided here
			ps[o.A].mute = o.K == "silent" || o.K == "dead"
		}
	}
	h.Net.OnPair = func(p *snet.Pair) {
		for _, x := range ps {
			if x.name == p.ClientNode {
				x.pairs = append(x.pairs, p)
			}
		}
	}
	srv, smon := mk("S")
	mons := []*hbMon{smon}
	var sep *EP
	byConn := map[ustack.TransportConnection]*peer{}
	h.Must("S", "build", func() {
		sep = newEP("ep", 0, 0)
		h.recvLoop("S", sep, true, func(d ustack.EndPointData) {
			m := l.arrive("S", d.GetData(), func(m *lmsg) bool { return m.tag < 100 })
			if m == nil {
				return
			}
			x := ps[m.tag]
			if x.sconn == nil {
				x.sconn = d.GetConnection()
				byConn[x.sconn] = x
				if k := smon.by[x.sconn]; k != nil {
					k.healthy = !x.broken
				}
			}
		})
		srv.U.AddEndPoint(sep)
		srv.U.AddTransport(newTransport(unix, true, "t", addr))
		srv.U.Run()
	})
	room := srv.room()
	start := zzsim.NowNano()
	sdone := h.actor("main", "start", start, func(o Op) {
		x := ps[o.A]
		if x.dead {
			return
		}
		x.stk, x.mon = mk(x.name)
		mons = append(mons, x.mon)
		if !x.broken {
			f := x.stk.OnEv
			x.stk.OnEv = func(e Ev) {
				if e.Type == ustack.UStackEventNewConnection {
					x.mon.event(e)
					if k := x.mon.by[e.Conn]; k != nil {
						k.healthy = true
					}
				}
				f(e)
			}
		}
		x.tp = newTransport(unix, false, "t", addr)
		h.Go(x.name, "build", func() {
			x.ep = newEP("ep", 0, 0)
			h.recvLoop(x.name, x.ep, true, func(d ustack.EndPointData) {
				l.arrive(x.name, d.GetData(), func(m *lmsg) bool { return m.tag == 100+o.A })
			})
			x.stk.U.AddEndPoint(x.ep)
			x.stk.U.AddTransport(x.tp)
			x.stk.U.Run()
			// introduce itself
			h.Wait(30*sec, func() bool { return len(x.mon.conns) > 0 })
			if len(x.mon.conns) > 0 {
				m, b := l.make(x.name+">S", o.A, 0, 20, room)
				m.must = !x.broken
				x.upSeq = 1
				send(x.ep, x.mon.conns[0].conn, b)
			}
		})
	})
	var dones []*bool
	for i := range ps {
		i, x := i, ps[i]
		d := h.actor(x.name, fmt.Sprintf("C%d", i), start, func(o Op) {
			if x.upSeq == 0 {
				return
			}
			s := x.upSeq
			x.upSeq++
			m, b := l.make(x.name+">S", i, s, o.A, room)
			m.must = !x.broken
			send(x.ep, x.mon.conns[0].conn, b)
		})
		if !x.broken {
			dones = append(dones, d)
		}
		d = h.actor("S", fmt.Sprintf("S%d", i), start, func(o Op) {
			if x.sconn == nil || x.mute {
				return
			}
			s := x.downSeq
			x.downSeq++
			m, b := l.make("S>"+x.name, 100+i, s, o.A, room)
			m.must = !x.broken
			send(sep, x.sconn, b)
		})
		if !x.broken {
			dones = append(dones, d)
		}
	}
	quiet := start
	ndone := h.actor("main", "net", start, func(o Op) {
		x := ps[o.A]
		d := int64(o.B) * ms
		if e := zzsim.NowNano() + d; e > quiet {
			quiet = e
		}
		if o.K == "pauseS" {
			nd := h.Node("S")
			zzsim.Count("fault.pause", 1)
			zzsim.PauseNode(nd)
			zzsim.After(d, func() { zzsim.ResumeNode(nd) })
			return
		}
		if x.dead || x.stk == nil || x.ended {
			return
		}
		switch o.K {
		case "cut":
			h.Net.Cut("S", x.name)
			zzsim.After(d, func() { h.Net.Heal("S", x.name) })
		case "stall":
			for _, p := range x.pairs {
				p.Stall(o.C, zzsim.NowNano()+d)
			}
		case "pause":
			nd := h.Node(x.name)
			zzsim.Count("fault.pause", 1)
			zzsim.PauseNode(nd)
			zzsim.After(d, func() { zzsim.ResumeNode(nd) })
		case "cclose":
			if len(x.mon.conns) > 0 {
				k := x.mon.conns[0]
				x.ended = true
				h.Go(x.name, "close", func() { k.conn.Close(); k.app = zzsim.NowNano() })
			}
		case "sclose":
			if k := smon.by[x.sconn]; x.sconn != nil && k != nil {
				x.ended = true
				h.Go("S", "close", func() { k.conn.Close(); k.app = zzsim.NowNano() })
			}
		case "reset":
			for _, p := range x.pairs {
				x.ended = true
				p.Reset()
			}
		case "delC":
			if x.upSeq == 0 { // not running yet
				return
			}
			x.ended = true
			h.Go(x.name, "delete", func() { x.stk.U.DeleteTransport(x.tp) })
		case "crash", "silent":
			zzsim.Count("fault."+o.K, 1)
			x.dead = true
			x.mon.exempt = true
			zzsim.KillNode(h.Node(x.name))
			h.Net.CrashNode(x.name, o.K == "silent")
		case "dead":
			h.Net.Cut("S", x.name)
		}
	})
	// reference connections carry no heartbeats
	var refs []*hbMon
	if h.p("ref") == 1 {
		type side struct {
			u    ustack.UStack
			ep   *EP
			conn ustack.TransportConnection
			got  int
		}
		var sd [2]*side
		var sent [2]int
		for k := 0; k < 2; k++ {
			k := k
			s := &side{}
			sd[k] = s
			m := h.newHBMon(fmt.Sprintf("ref%d", k), T, cl)
			refs = append(refs, m)
			h.Must("R", "build", func() {
				s.u = ustack.NewUStack()
				hb := ustack.NewHeartbeat().SetOption("IntervalInSecond", 1).SetOption("TimeoutInSecond", h.p("T"))
				s.u.AppendDataProcessor(hb).AppendDataProcessor(ustack.NewFrameDecoder())
				s.u.SetEventListener(func(e ustack.Event) {
					c, _ := e.Data.(ustack.TransportConnection)
					if c != nil && e.Type == ustack.UStackEventNewConnection && s.conn == nil {
						s.conn = c
					}
					if e.Type == ustack.UStackEventHeartbeatLost {
						h.Fail("lost-reference", "a reference connection was reported lost")
					}
				})
				s.ep = newEP("ep", 0, 0)
				h.recvLoop("R", s.ep, true, func(d ustack.EndPointData) {
					b, ok := d.GetData().([]byte)
					if !ok || string(b) != fmt.Sprintf("obj %d %d", 1-k, s.got) {
						h.Fail("unexpected-message", "reference connection delivered %v", d.GetData())
					}
					s.got++
				})
				s.u.AddEndPoint(s.ep)
				s.u.AddTransport(ustack.NewReferenceTransport("r").SetAddress("ref").ForServer(k == 0))
				s.u.Run()
			})
		}
		h.Go("R", "objects", func() {
			for k := 0; k < h.p("span"); k++ {
				h.Sleep(700 * ms)
				for i := 0; i < 2; i++ {
					if sd[i].conn != nil {
						send(sd[i].ep, sd[i].conn, []byte(fmt.Sprintf("obj %d %d", i, sent[i])))
						sent[i]++
					}
				}
			}
		})
		defer func() {
			for i := 0; i < 2; i++ {
				if sd[i].conn == nil || sd[i].conn.Closed() {
					h.Fail("closed-live", "a reference connection was closed")
				}
				if sd[i].got != sent[1-i] {
					h.Fail("lost-message", "%d of %d objects arrived on a reference connection", sd[i].got, sent[1-i])
				}
			}
		}()
	}
	end := start + int64(h.p("span"))*sec
	h.Until(end / us)
	ok := h.Wait(400*sec, func() bool {
		for _, d := range dones {
			if !*d {
				return false
			}
		}
		return *ndone && *sdone && zzsim.NowNano() > quiet
	})
	if !ok {
		h.Fail("blocked", "operations did not finish: %v", zzsim.TaskNames(h.Node("S")))
	}
	l.settle(40*sec, "although the connection is healthy")
	h.Sleep(T + 3*sec)
	for i, x := range ps {
		if x.broken {
			continue
		}
		h.Obs()
		if x.mon == nil || len(x.mon.conns) != 1 || x.mon.conns[0].conn.Closed() || x.sconn == nil || x.sconn.Closed() {
			h.Fail("closed-live", "the connection of peer %d was closed although heartbeats kept arriving", i)
		}
		// each side kept hearing from the other
		for _, k := range []*hbConn{x.mon.conns[0], smon.by[x.sconn]} {
			if now := zzsim.NowNano(); len(k.beats) < 2 || now-k.beats[len(k.beats)-1] > T {
				h.Fail("no-heartbeat", "peer %d: %d heartbeats, none in the last %d ms", i, len(k.beats)-1, (now-k.beats[len(k.beats)-1])/ms)
			}
		}
	}
}
