package main

import (
	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// C01: framed messages arrive whole, in order, exactly once.

func init() {
	register(&Scenario{ID: "C01", Gen: genC01, Run: runC01,
		Min: map[string]int{"codec": 0, "procs": 0, "cache": 0, "unix": 0, "small": 0, "listener": 1, "slow": 0, "early": 0}})
}

var mtus = []int{64, 100, 300, 2048, 5000}

func genSizes(g *zzsim.Rng, room int) int {
	switch g.Intn(7) {
	case 0:
		return 1
	case 1:
		return g.Range(1, 8)
	case 2:
		return room
	case 3:
		return room - g.Intn(6)
	case 4:
		return g.Range(1, room)
	case 5:
		return room / 2
	}
	return g.Range(1, 30)
}

// genFaults adds faults of the network and of processes between a and b.
func genFaults(g *zzsim.Rng, p *Plan, span int64, breaking bool) {
	for i := g.Intn(3); i > 0; i-- {
		p.add(int64(g.Intn(int(span))), "net", "stall", g.Intn(2), g.Range(1, 4000))
	}
	if g.Intn(4) == 0 {
		p.add(int64(g.Intn(int(span))), "net", "cut", g.Range(1, 8000))
	}
	if g.Intn(4) == 0 {
		p.add(int64(g.Intn(int(span))), "net", "pause", g.Intn(2), g.Range(1, 3000))
	}
	if breaking {
		at := int64(g.Intn(int(span)))
		switch g.Intn(5) {
		case 0:
			p.add(at, "net", "reset")
		case 1:
			p.add(at, "net", "crash", g.Intn(2), g.Intn(2))
		case 2, 3:
			p.add(0, "net", "failwrite", g.Intn(2), g.Intn(3000))
		case 4:
			p.add(at, "net", "close", g.Intn(2))
		}
	}
}

func genC01(g *zzsim.Rng, p *Plan) {
	defer genLull(g, p)
	p.P["mtu"] = mtus[g.Intn(len(mtus))]
	p.P["codec"] = []int{codecBytes, codecString, codecJSON, codecGOB, codecGeneric, codecGenericFull, codecGenericAll, codecGenericRaw}[g.Intn(8)]
	if g.Intn(3) > 0 {
		p.P["procs"] = g.Range(1, 1<<20)
	}
	if g.Intn(3) == 0 {
		p.P["cache"] = []int{1, 16, 128, 1024, 10000}[g.Intn(5)]
	}
	p.P["unix"] = g.Intn(2) & g.Intn(2)
	p.P["small"] = []int{0, 0, 1, 3}[g.Intn(4)]
	p.P["listener"] = g.Intn(2)
	if g.Intn(4) == 0 {
		p.P["slow"] = g.Range(1, 50) // ms per received message
	}
	big := g.Intn(25) == 0
	if big {
		p.P["mtu"] = []int{66000, 70000, 140000}[g.Intn(3)]
		if p.P["codec"] == codecGenericFull {
			p.P["codec"] = codecGenericAll
		}
	}
	room := p.P["mtu"]
	tame(g, p, room)
	span := []int64{1000, 100000, 2000000}[g.Intn(3)]
	rush := !big && genRush(g, p, 40)
	for _, who := range []string{"A", "B"} {
		n := g.Intn(14)
		if big {
			n = g.Intn(4)
		}
		if rush {
			delete(p.P, "slow")
			n = g.Range(20, 900)
			for i := 0; i < n; i++ {
				p.add(int64(g.Intn(int(span))), who, "send", g.Range(1, 12), g.Intn(4))
			}
			continue
		}
		for i := 0; i < n; i++ {
			p.add(int64(g.Intn(int(span))), who, "send", genSizes(g, room), g.Intn(4))
		}
	}
	genFaults(g, p, span, g.Intn(4) == 0)
	if g.Intn(4) == 0 { // each side sends from the moment it knows the connection
		p.P["early"] = 1
		if g.Intn(2) == 0 {
			p.Net.MinDelay, p.Net.MaxDelay = 100, 1000
		}
	}
}

func runC01(h *H) {
	unix := h.p("unix") == 1
	addr := addrFor(unix, 0)
	procs := procsFrom(h.p("procs"))
	var stk [2]*Stk
	var ep [2]*EP
	var conn [2]ustack.TransportConnection
	names := []string{"A", "B"}
	var pair *snet.Pair
	h.Net.OnPair = func(p *snet.Pair) {
		if pair == nil {
			pair = p
			for _, o := range h.ops("net") {
				if o.K == "failwrite" {
					p.FailWrite(o.A, int64(o.B))
				}
			}
		}
	}
	session := 0
	if has(procs, "session") {
		session = 5
	}
	st := [2]*stream{{h: h, name: "A->B", codec: h.p("codec")}, {h: h, name: "B->A", codec: h.p("codec")}}
	broken := false
	early := h.p("early") == 1
	var done [2]*bool
	actor := func(i int, start int64) *bool {
		seq := 0
		var last []byte
		lastID := 0
		return h.actor(names[i], names[i], start, func(o Op) {
			b := fit(stk[i].Codec, i, seq, o.A, stk[i].room())
			if o.B == 0 && stk[i].Codec == codecGenericRaw {
				b = []byte{}
			}
			id := seq
			if o.B == 1 && last != nil { // the same again
				b, id = last, lastID
			}
			if b == nil {
				return
			}
			last, lastID = b, id
			st[i].expect(b)
			send(ep[i], conn[i], pack(stk[i].Codec, id, b))
			seq++
		})
	}
	for i := range names {
		i := i
		s := h.newStk(names[i], h.p("mtu")).framed(h.p("codec"), procs, h.p("cache"))
		stk[i] = s
		s.OnEv = func(e Ev) {
			if e.Type == ustack.UStackEventNewConnection && conn[i] == nil {
				conn[i] = e.Conn
				if early {
					done[i] = actor(i, zzsim.NowNano())
				}
			}
		}
		h.Must(names[i], "build", func() {
			ep[i] = newEP("ep", session, h.p("small"))
			h.recvLoop(names[i], ep[i], h.p("listener") == 1, func(d ustack.EndPointData) {
				if d.GetConnection() != conn[i] {
					h.Fail("wrong-connection", "message delivered with a connection nobody announced")
				}
				st[1-i].arrive(d.GetData())
				if m := h.p("slow"); m > 0 {
					h.Sleep(int64(m) * ms)
				}
			})
			s.U.AddEndPoint(ep[i])
			s.U.AddTransport(newTransport(unix, i == 0, "t", addr))
			if !early {
				s.U.Run()
			}
		})
	}
	if early {
		for i := range names {
			i := i
			h.Go(names[i], "run", func() { stk[i].U.Run() })
		}
	}
	if !h.Wait(20*sec, func() bool { return conn[0] != nil && conn[1] != nil && (!early || (done[0] != nil && done[1] != nil)) }) {
		h.Fail("no-connection", "no connection within 20 s")
	}
	start := zzsim.NowNano()
	if !early {
		for i := range names {
			done[i] = actor(i, start)
		}
	}
	quiet := start
	netDone := h.actor("main", "net", start, func(o Op) {
		if pair == nil {
			return
		}
		now := zzsim.NowNano()
		switch o.K {
		case "stall":
			pair.Stall(o.A, now+int64(o.B)*ms)
			if e := now + int64(o.B)*ms; e > quiet {
				quiet = e
			}
		case "cut":
			h.Net.Cut("A", "B")
			zzsim.After(int64(o.A)*ms, func() { h.Net.Heal("A", "B") })
			if e := now + int64(o.A)*ms; e > quiet {
				quiet = e
			}
		case "pause":
			n := h.Node(names[o.A])
			zzsim.Count("fault.pause", 1)
			zzsim.PauseNode(n)
			zzsim.After(int64(o.B)*ms, func() { zzsim.ResumeNode(n) })
			if e := now + int64(o.B)*ms; e > quiet {
				quiet = e
			}
		case "failwrite":
			broken = true
		case "reset":
			broken = true
			pair.Reset()
		case "crash":
			broken = true
			zzsim.Count("fault.crash", 1)
			n := h.Node(names[o.A])
			zzsim.KillNode(n)
			h.Net.CrashNode(names[o.A], o.B == 1)
		case "close":
			broken = true
			c := conn[o.A]
			h.Go(names[o.A], "close", func() { c.Close() })
		}
	})
	limit := 600 * sec
	if broken || hasBreak(h) {
		limit = 20 * sec
	}
	h.Wait(limit, func() bool { return *netDone && (broken || (*done[0] && *done[1])) })
	if d := quiet - zzsim.NowNano(); d > 0 {
		h.Sleep(d)
	}
	if broken {
		h.Sleep(10 * sec) // anything delivered now would be checked against the prefix
		return
	}
	if !*done[0] || !*done[1] {
		h.Fail("send-blocked", "sender blocked for 600 s on a healthy network (A done %v, B done %v)", *done[0], *done[1])
	}
	h.settle(40*sec, st[0], st[1])
	h.Sleep(2 * sec) // duplicates would show up here
}

func hasBreak(h *H) bool {
	for _, o := range h.ops("net") {
		switch o.K {
		case "reset", "crash", "close", "failwrite":
			return true
		}
	}
	return false
}
