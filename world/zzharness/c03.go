package main

import (
	"fmt"

	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// C03: a message reaches exactly the endpoint of its session.

func init() {
	register(&Scenario{ID: "C03", Gen: genC03, Run: runC03,
		Min: map[string]int{"moved": 0, "codec": 0, "procs": 0, "unix": 0, "small": 0, "listener": 1}})
}

var sessionPool = []int{0, 1, 2, 3, 7, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 1 << 24, 1<<31 - 1, 1 << 31, 1<<32 - 1}

// destinations that cannot be sent: nobody holds them
var noSession = []int{-1, -2, -1 << 31, 1 << 32, 1<<32 + 1, 1<<32 + 2, 1<<33 + 3, 1<<32 + 7, -1 << 62}

const noDest = 1<<62 + 1

func genC03(g *zzsim.Rng, p *Plan) {
	defer genLull(g, p)
	p.P["mtu"] = []int{100, 300, 2048}[g.Intn(3)]
	p.P["codec"] = []int{codecBytes, codecString, codecGeneric, codecBytes, codecJSON, codecGOB, codecGenericAll}[g.Intn(7)]
	if p.P["codec"] == codecJSON || p.P["codec"] == codecGOB {
		p.P["mtu"] = 300
	}
	if g.Intn(2) > 0 {
		p.P["procs"] = g.Range(1, 1<<20)
	}
	p.P["unix"] = g.Intn(2) & g.Intn(2)
	p.P["small"] = []int{0, 0, 1, 3}[g.Intn(4)]
	p.P["listener"] = g.Intn(2)
	p.P["clients"] = g.Range(1, 2)
	p.P["moved"] = []int{0, 0, 0, 0, 1, 2}[g.Intn(6)]
	tame(g, p, p.P["mtu"])
	perm := g.Perm(len(sessionPool))
	k := g.Range(2, 5)
	if g.Intn(10) == 0 {
		k = g.Range(6, len(sessionPool))
	}
	span := []int64{1000, 100000, 2000000}[g.Intn(3)]
	for s := 0; s < 1+p.P["clients"]; s++ {
		// sessions of stack s, all taken from the same small set so that
		// they overlap, but not completely
		n := 0
		for _, x := range perm[:k] {
			if g.Intn(4) > 0 {
				p.add(0, "ep", "ep", s, sessionPool[x])
				n++
			}
		}
		if n == 0 {
			p.add(0, "ep", "ep", s, sessionPool[perm[0]])
		}
	}
	var eps []Op
	for _, o := range p.Ops {
		if o.K == "ep" {
			eps = append(eps, o)
		}
	}
	count := g.Range(4, 24)
	if genRush(g, p, 40) {
		count = g.Range(100, 400)
	}
	for i := count; i > 0; i-- {
		e := eps[g.Intn(len(eps))]
		dest := noDest
		if g.Intn(3) > 0 {
			dest = sessionPool[perm[g.Intn(k)]]
			if g.Intn(6) == 0 {
				dest = sessionPool[g.Intn(len(sessionPool))]
			}
			if g.Intn(8) == 0 {
				// a number that has the same low bits as a session in use
				dest = sessionPool[perm[g.Intn(k)]] + []int{1 << 32, -1 << 32, 1 << 40, -1 << 62}[g.Intn(4)]
			}
			if g.Intn(12) == 0 {
				dest = noSession[g.Intn(len(noSession))]
			}
		}
		o := Op{At: int64(g.Intn(int(span))), Who: fmt.Sprintf("e%d.%d", e.A, e.B), K: "send", A: genSizes(g, p.P["mtu"]), B: dest, C: g.Intn(2)}
		p.Ops = append(p.Ops, o)
	}
	for i := g.Intn(3); i > 0; i-- {
		p.add(int64(g.Intn(int(span))), "net", "stall", g.Intn(2), g.Range(1, 3000), g.Intn(2))
	}
	if g.Intn(4) == 0 {
		p.add(int64(g.Intn(int(span))), "net", "pause", g.Intn(2), g.Range(1, 2000))
	}
	if g.Intn(3) == 0 && p.P["moved"] == 0 { // the server greets a client as soon as it is there
		p.P["hello"] = 1
		if g.Intn(2) == 0 {
			p.Net.MinDelay, p.Net.MaxDelay = 100, 1000
		}
	}
}

func runC03(h *H) {
	unix := h.p("unix") == 1
	codec := h.p("codec")
	extra := procsFrom(h.p("procs"))
	procs := []string{"session"}
	for i, x := range extra {
		if x == "session" || x == "sessionoff" {
			continue
		}
		if i%2 == 0 {
			procs = append(procs, x)
		} else {
			procs = append([]string{x}, procs...)
		}
	}
	l := newLedger(h, codec)
	type epx struct {
		stack, session int
		*EP
	}
	var eps []*epx
	n := 1 + h.p("clients")
	stk := make([]*Stk, n)
	pairs := make([]*snet.Pair, n)
	holds := map[[2]int]bool{}
	for _, o := range h.ops("ep") {
		holds[[2]int{o.A, o.B}] = true
	}
	name := func(s int) string { return []string{"S", "C1", "C2"}[s] }
	h.Net.OnPair = func(p *snet.Pair) {
		for s := 1; s < n; s++ {
			if name(s) == p.ClientNode && pairs[s] == nil {
				pairs[s] = p
			}
		}
	}
	// the connection of the server for each client is learnt from its order
	// of arrival: clients connect one after the other
	conn := make([]ustack.TransportConnection, n)
	sconn := make([]ustack.TransportConnection, n)
	seqs := map[string]int{}
	hellos := 0
	var moves []func() // of each stack, once the connections are there
	hello := func(i int) {
		defer func() { hellos-- }()
		if len(eps) == 0 || eps[0].stack != 0 {
			return
		}
		for _, o := range h.ops("ep") {
			if o.A != i {
				continue
			}
			seqs["x"]++
			m, x := l.make(lane(0, fmt.Sprintf("%d/%d", i, o.B)), i*100, seqs["x"], 9, stk[0].room())
			if m == nil {
				continue
			}
			m.must = true
			zzsim.To(eps[0].GetTxChannel()).Send(-100, ustack.NewEndPointData().SetConnection(sconn[i]).SetData(x).SetDestinationSession(o.B))
		}
	}
	for s := 0; s < n; s++ {
		s := s
		k := h.newStk(name(s), h.p("mtu")).framed(codec, procs, 0)
		stk[s] = k
		k.OnEv = func(e Ev) {
			if e.Type != ustack.UStackEventNewConnection {
				return
			}
			if s > 0 {
				conn[s] = e.Conn
				return
			}
			for i := 1; i < n; i++ {
				if sconn[i] == nil {
					sconn[i] = e.Conn
					if h.p("hello") == 1 {
						i := i
						hellos++
						h.Go("S", "hello", func() { hello(i) })
					}
					return
				}
			}
		}
		h.Must(name(s), "build", func() {
			var mine []*epx
			for _, o := range h.ops("ep") {
				if o.A != s {
					continue
				}
				o := o
				e := &epx{s, o.B, newEP(fmt.Sprintf("ep%d", o.B), o.B, h.p("small"))}
				eps = append(eps, e)
				where := fmt.Sprintf("%s/session %d", name(s), o.B)
				h.recvLoop(name(s), e.EP, h.p("listener") == 1, func(d ustack.EndPointData) {
					m := l.arrive(where, d.GetData(), nil)
					from := 0
					if m == nil {
						return
					}
					// tag: sender endpoint * 100 + destination stack * 10, session checked below
					from = m.tag / 1000
					dst := m.tag / 100 % 10
					if dst != s {
						h.Fail("misrouted", "%s: got message %d.%d meant for stack %s", where, m.tag, m.seq, name(dst))
					}
					if m.lane != lane(from, fmt.Sprintf("%d/%d", s, o.B)) {
						h.Fail("misrouted", "%s: got message %d.%d of lane %s", where, m.tag, m.seq, m.lane)
					}
					if s == 0 {
						if c := d.GetConnection(); c != sconn[eps[from].stack] {
							h.Fail("wrong-connection", "%s: message %d.%d attributed to another connection", where, m.tag, m.seq)
						}
					}
				})
				mine = append(mine, e)
			}
			if h.p("moved") > 0 { // at first with the session of another one
				for j, e := range mine {
					e.EP.SetSession(mine[(j+1)%len(mine)].session)
				}
			}
			for _, e := range mine {
				k.U.AddEndPoint(e.EP)
			}
			k.U.AddTransport(newTransport(unix, s == 0, "t", addrFor(unix, 0)))
			k.U.Run()
			if h.p("moved") > 0 {
				move := func() {
					for _, e := range mine {
						k.U.DeleteEndPoint(e.EP)
					}
					for _, e := range mine {
						e.EP.SetSession(e.session)
						k.U.AddEndPoint(e.EP)
					}
				}
				if h.p("moved") == 1 {
					move()
				} else {
					moves = append(moves, move)
				}
			}
		})
		if s > 0 && !h.Wait(20*sec, func() bool { return conn[s] != nil && sconn[s] != nil }) {
			h.Fail("no-connection", "no connection within 20 s")
		}
	}
	if !h.Wait(120*sec, func() bool { return hellos == 0 }) {
		h.Fail("send-blocked", "a sender blocked for 120 s")
	}
	room := stk[0].room()
	for s, f := range moves {
		s, f := s, f
		h.Must(name(s), "move", func() {
			for _, e := range eps {
				if c := conn[s]; e.stack == s && c != nil && len(e.GetTxChannel()) == 0 {
					sendTo(e.EP, c, 77777, pack(codec, 1, payload(99, 99, 9))) // nobody has that
				}
			}
			f()
			if s == 0 {
				return
			}
			for i, e := range eps {
				if e.stack != s {
					continue
				}
				seqs["x"]++
				m, x := l.make(lane(i, fmt.Sprintf("0/%d", e.session)), i*1000, seqs["x"], 9, room)
				if m != nil {
					m.must = holds[[2]int{0, e.session}]
					send(e.EP, conn[s], x)
				}
			}
		})
	}
	start := zzsim.NowNano()
	var done []*bool
	for i, e := range eps {
		i, e := i, e
		done = append(done, h.actor(name(e.stack), fmt.Sprintf("e%d.%d", e.stack, e.session), start, func(o Op) {
			dst := 0
			c := conn[e.stack]
			if e.stack == 0 {
				dst = 1 + o.C%(n-1)
				c = sconn[dst]
			}
			sess := e.session
			if o.B != noDest {
				sess = o.B
			}
			ln := lane(i, fmt.Sprintf("%d/%d", dst, sess))
			seqs["x"]++
			m, x := l.make(ln, i*1000+dst*100, seqs["x"], o.A, room)
			if m == nil {
				return
			}
			m.must = holds[[2]int{dst, sess}]
			d := ustack.NewEndPointData().SetConnection(c).SetData(x)
			if o.B != noDest {
				d.SetDestinationSession(o.B)
			} else if o.A%3 == 0 {
				d.SetDestinationSession(e.session + 1).ClearDestinationSession()
			}
			zzsim.To(e.GetTxChannel()).Send(-100, d)
		}))
	}
	quiet := start
	netDone := h.actor("main", "net", start, func(o Op) {
		s := 1 + o.A%(n-1)
		switch o.K {
		case "stall":
			if pairs[s] != nil {
				pairs[s].Stall(o.C, zzsim.NowNano()+int64(o.B)*ms)
			}
		case "pause":
			nd := h.Node(name(s))
			zzsim.Count("fault.pause", 1)
			zzsim.PauseNode(nd)
			zzsim.After(int64(o.B)*ms, func() { zzsim.ResumeNode(nd) })
		}
		if e := zzsim.NowNano() + int64(o.B)*ms; e > quiet {
			quiet = e
		}
	})
	if !h.Wait(600*sec, func() bool {
		for _, d := range done {
			if !*d {
				return false
			}
		}
		return *netDone
	}) {
		h.Fail("send-blocked", "a sender blocked for 600 s")
	}
	if d := quiet - zzsim.NowNano(); d > 0 {
		h.Sleep(d)
	}
	l.settle(40*sec, "although the network is healthy")
	h.Sleep(2 * sec)
}
