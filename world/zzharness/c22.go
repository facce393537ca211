package main

import (
	"fmt"

	"ustack"
	"ustack/zzsim"
)

// C22: a stalled receiver stops its senders, and only them.

func init() {
	register(&Scenario{ID: "C22", Gen: genC22, Run: runC22,
		Min: map[string]int{"procs": 0, "unix": 0, "ref": 0, "big": 0}})
}

const c22calm = 20 * sec // how long a message may take on a lane nothing disturbs

func genC22(g *zzsim.Rng, p *Plan) {
	defer genLull(g, p)
	p.P["mtu"] = []int{160, 200, 300}[g.Intn(3)]
	if g.Intn(2) > 0 {
		p.P["procs"] = g.Range(1, 1<<20)
	}
	p.P["unix"] = g.Intn(2)
	p.P["ref"] = []int{0, 0, 0, 1}[g.Intn(4)]
	p.P["queue"] = g.Range(1, 6)
	p.P["tx"] = g.Range(1, 5)
	p.P["rx"] = g.Range(1, 5)
	p.P["size"] = g.Range(60, 90)
	p.P["clients"] = g.Range(1, 4)
	p.P["eps"] = g.Range(1, 3)
	if p.P["ref"] == 1 {
		p.P["eps"] = 1
	}
	if g.Intn(60) == 0 {
		p.P["big"] = 1 // endpoints as they come, with data listeners that do not return
		p.P["clients"], p.P["eps"] = 1, 1
	}
	if w := p.Net.Window; w > 800 {
		p.Net.Window = []int{64, 200, 400, 800}[g.Intn(4)]
	}
	if p.Net.SegMax < 50 {
		p.Net.SegMax = 50
	}
	if p.Net.ShortRd > 0 && p.Net.ShortRd < 40 {
		p.Net.ShortRd = 40
	}
	n, m := p.P["clients"], p.P["eps"]
	// the lanes: client, session, direction
	type ln struct{ c, s, d int }
	var lanes []ln
	for c := 0; c < n; c++ {
		for s := 0; s < m; s++ {
			for d := 0; d < 2; d++ {
				if g.Intn(2) == 0 {
					lanes = append(lanes, ln{c, s, d})
				}
			}
		}
	}
	if len(lanes) == 0 {
		lanes = append(lanes, ln{0, 0, g.Intn(2)})
	}
	span := []int{5000, 1000000, 60000000}[g.Intn(3)]
	heavy := 2
	for _, l := range lanes {
		who := fmt.Sprintf("%d.%d", l.c, l.s)
		if l.d == 1 {
			who = fmt.Sprintf("S.%d", l.s)
		}
		for i := g.Range(1, 4); i > 0; i-- {
			k := g.Range(1, 20)
			if heavy > 0 && g.Intn(3) == 0 {
				heavy--
				k = g.Range(40, 90)
			}
			if p.P["big"] == 1 {
				k = g.Range(500, 900)
			}
			p.add(int64(g.Intn(span)), who, "burst", l.c, k, []int{0, 0, g.Range(1, 500)}[g.Intn(3)])
		}
	}
	for i := g.Range(1, 4); i > 0; i-- {
		l := lanes[g.Intn(len(lanes))]
		at, d := int64(g.Intn(span)), []int{g.Range(1, 2000), g.Range(2000, 120000)}[g.Intn(2)]
		if p.P["procs"] == 0 && g.Intn(30) == 0 {
			d = g.Range(400000, 8000000) // for hours
		}
		if g.Intn(5) == 0 {
			p.add(at, "stall", "hang", l.c, 0, d) // the whole client
		} else {
			who := l.c
			if l.d == 0 {
				who = -1
			}
			p.add(at, "stall", "stop", who, l.s, d)
		}
	}
}

type c22recv struct {
	where string
	until int64 // takes nothing until then
}

func runC22(h *H) {
	n, m := h.p("clients"), h.p("eps")
	ref, big := h.p("ref") == 1, h.p("big") == 1
	var procs []string
	for _, x := range procsFrom(h.p("procs")) {
		if x != "session" && !(ref && x == "heartbeat") {
			procs = append(procs, x)
		}
	}
	mk := func(node string) *Stk {
		if ref {
			s := h.newStk(node, h.p("mtu"))
			for _, x := range procs {
				s.add(mkProc(x))
			}
			return s
		}
		pr := procs
		if m > 1 {
			pr = append([]string{"session"}, procs...)
		}
		return h.newStk(node, h.p("mtu")).framed(codecBytes, pr, 0)
	}
	room := h.p("mtu") - 60
	size := h.p("size")
	led := newLedger(h, codecBytes)
	mkEP := func(name string, session int) *EP {
		if big {
			return newEP(name, session, 0)
		}
		e := newEP(name, session, 1)
		e.tx = make(chan ustack.EndPointData, h.p("tx"))
		e.rx = make(chan ustack.EndPointData, h.p("rx"))
		return e
	}
	type lane22 struct {
		c, s, d  int
		name     string
		from     *EP
		accepted int
		got      int
		msgs     []*lmsg
		seq      int
	}
	lanes := map[string]*lane22{}
	var list []*lane22
	key := func(c, s, d int) string { return fmt.Sprintf("%d.%d/%d", c, s, d) }
	for _, o := range h.P.Ops {
		if o.K != "burst" {
			continue
		}
		c, s, d := o.A, 0, 0
		if o.Who[0] == 'S' {
			d = 1
			fmt.Sscanf(o.Who, "S.%d", &s)
		} else {
			fmt.Sscanf(o.Who, "%d.%d", &c, &s)
		}
		if c >= n || s >= m {
			continue
		}
		if lanes[key(c, s, d)] == nil {
			l := &lane22{c: c, s: s, d: d}
			l.name = fmt.Sprintf("client %d, session %d, %s", c, s, []string{"up", "down"}[d])
			lanes[key(c, s, d)] = l
			list = append(list, l)
		}
	}
	// receivers
	recvs := map[string]*c22recv{}
	tag := map[string]*lane22{}
	receive := func(node string, where string, e *EP, which func(ustack.EndPointData, *lmsg) bool) {
		r := &c22recv{where: where}
		recvs[where] = r
		h.recvLoop(node, e, big, func(d ustack.EndPointData) {
			x := led.arrive(where, d.GetData(), func(x *lmsg) bool { return which(d, x) })
			if l := tag[x.lane]; l != nil {
				l.got++
			}
			for zzsim.NowNano() < r.until {
				h.Sleep(r.until - zzsim.NowNano())
			}
		})
	}
	srv := mk("S")
	sconn := make([]ustack.TransportConnection, n) // the server's connection of each client
	seps := make([]*EP, m)
	hello := 0
	h.Must("S", "build", func() {
		for s := range seps {
			s := s
			seps[s] = mkEP(fmt.Sprintf("ep%d", s), s)
			receive("S", fmt.Sprintf("S.%d", s), seps[s], func(d ustack.EndPointData, x *lmsg) bool {
				if x.lane[0] == 'h' {
					var c int
					fmt.Sscanf(x.lane, "hello %d", &c)
					sconn[c] = d.GetConnection()
					hello++
					return true
				}
				l := tag[x.lane]
				return l != nil && l.d == 0 && l.s == s && d.GetConnection() == sconn[l.c]
			})
			srv.U.AddEndPoint(seps[s])
		}
		if !ref {
			srv.U.AddTransport(newTransport(h.p("unix") == 1, true, "t", addrFor(h.p("unix") == 1, 0)))
		} else {
			for c := 0; c < n; c++ {
				srv.U.AddTransport(ustack.NewReferenceTransport("r").SetAddress(fmt.Sprintf("ref%d", c)).ForServer(true).SetOption("MaxQueueSize", h.p("queue")))
			}
		}
		srv.U.Run()
	})
	cli := make([]*Stk, n)
	ceps := make([][]*EP, n)
	for c := range cli {
		c := c
		node := fmt.Sprintf("C%d", c)
		cli[c] = mk(node)
		h.Must(node, "build", func() {
			for s := 0; s < m; s++ {
				s := s
				e := mkEP(fmt.Sprintf("ep%d", s), s)
				ceps[c] = append(ceps[c], e)
				receive(node, fmt.Sprintf("%d.%d", c, s), e, func(d ustack.EndPointData, x *lmsg) bool {
					l := tag[x.lane]
					return l != nil && l.d == 1 && l.c == c && l.s == s && d.GetConnection() == cli[c].Conns[0]
				})
				cli[c].U.AddEndPoint(e)
			}
			if !ref {
				cli[c].U.AddTransport(newTransport(h.p("unix") == 1, false, "t", addrFor(h.p("unix") == 1, 0)))
			} else {
				cli[c].U.AddTransport(ustack.NewReferenceTransport("r").SetAddress(fmt.Sprintf("ref%d", c)).ForServer(false).SetOption("MaxQueueSize", h.p("queue")))
			}
			cli[c].U.Run()
		})
		if !h.Wait(60*sec, func() bool { return len(cli[c].Conns) > 0 }) {
			h.Fail("not-connected", "client %d is not connected", c)
		}
		x, msg := led.make(fmt.Sprintf("hello %d", c), 900+c, 1, 20, room)
		x.must = true
		h.Must(node, "hello", func() { send(ceps[c][0], cli[c].Conns[0], msg) })
	}
	if !h.Wait(60*sec, func() bool { return hello == n }) {
		h.Fail("lost-message", "only %d of %d clients' first messages arrive", hello, n)
	}
	for i, l := range list {
		tag[fmt.Sprintf("L%d", i)] = l
		l.from = seps[l.s]
		if l.d == 0 {
			l.from = ceps[l.c][l.s]
		}
	}
	// what may be under way on one lane: both queues, what each routine holds,
	// what the connection holds
	bound := cap(seps[0].GetTxChannel()) + cap(seps[0].GetRxChannel()) + 4
	if ref {
		bound += h.p("queue") + 2
	} else {
		bound += (h.P.Net.Window+h.P.Net.SegMax%65536+2*h.p("mtu")+2*(size+60))/size + 2
	}
	start := zzsim.NowNano()
	calm := start // when the last receiver goes on
	type iv struct{ from, to int64 }
	disturbed := map[*lane22][]iv{}
	// affects lists the lanes that share an endpoint or a connection with a stalled receiver
	affects := func(conn map[int]bool, dst string, from, to int64) {
		src := map[*EP]bool{}
		for _, l := range list {
			where := fmt.Sprintf("%d.%d", l.c, l.s)
			if l.d == 0 {
				where = fmt.Sprintf("S.%d", l.s)
			}
			if where == dst {
				conn[l.c] = true
			}
		}
		for _, l := range list {
			if conn[l.c] {
				src[l.from] = true
			}
		}
		for _, l := range list {
			where := fmt.Sprintf("%d.%d", l.c, l.s)
			if l.d == 0 {
				where = fmt.Sprintf("S.%d", l.s)
			}
			if conn[l.c] || src[l.from] || where == dst {
				disturbed[l] = append(disturbed[l], iv{from, to})
			}
		}
	}
	sdone := h.actor("main", "stall", start, func(o Op) {
		zzsim.Count("fault.stalled-receiver", 1)
		now := zzsim.NowNano()
		end := now + int64(o.C)*ms
		if end > calm {
			calm = end
		}
		switch o.K {
		case "stop":
			where := fmt.Sprintf("%d.%d", o.A, o.B)
			if o.A < 0 {
				where = fmt.Sprintf("S.%d", o.B)
			}
			r := recvs[where]
			if r == nil {
				return
			}
			if end > r.until {
				r.until = end
			}
			affects(map[int]bool{}, where, now, end)
		case "hang":
			if o.A >= n {
				return
			}
			nd := h.Node(fmt.Sprintf("C%d", o.A))
			zzsim.PauseNode(nd)
			zzsim.After(int64(o.C)*ms, func() { zzsim.ResumeNode(nd) })
			affects(map[int]bool{o.A: true}, "", now, end)
		}
	})
	var done []*bool
	burst := func(o Op, l *lane22, lane string, conn ustack.TransportConnection) {
		for k := 0; k < o.B; k++ {
			l.seq++
			id := 0
			fmt.Sscanf(lane, "L%d", &id)
			x, msg := led.make(lane, id, l.seq, size, room)
			x.must = true
			if ref {
				msg = payload(id, l.seq, x.size)
			}
			l.msgs = append(l.msgs, x)
			send(l.from, conn, msg)
			x.at = zzsim.NowNano()
			l.accepted++
			if d := l.accepted - l.got; d > bound {
				h.Fail("unbounded", "%s: %d messages have been accepted, %d delivered: %d are under way although the queues and the connection hold at most %d", l.name, l.accepted, l.got, d, bound)
			}
			if o.C > 0 {
				h.Sleep(int64(o.C) * ms)
			} else if k%30 == 29 {
				h.Sleep(1 * us)
			}
		}
	}
	laneName := func(l *lane22) string {
		for i, x := range list {
			if x == l {
				return fmt.Sprintf("L%d", i)
			}
		}
		return ""
	}
	for c := 0; c < n; c++ {
		c := c
		for s := 0; s < m; s++ {
			s := s
			l := lanes[key(c, s, 0)]
			if l != nil {
				done = append(done, h.actor(fmt.Sprintf("C%d", c), fmt.Sprintf("%d.%d", c, s), start, func(o Op) { burst(o, l, laneName(l), cli[c].Conns[0]) }))
			}
		}
	}
	for s := 0; s < m; s++ {
		s := s
		done = append(done, h.actor("S", fmt.Sprintf("S.%d", s), start, func(o Op) {
			if l := lanes[key(o.A, s, 1)]; l != nil {
				burst(o, l, laneName(l), sconn[o.A])
			}
		}))
	}
	h.Wait(40000*sec, func() bool {
		for _, d := range done {
			if !*d {
				return false
			}
		}
		return *sdone
	})
	for _, d := range done {
		if !*d {
			h.Fail("send-blocked", "a sender is still blocked long after although every receiver goes on: %v", zzsim.TaskNames(h.Node("S")))
		}
	}
	if d := calm - zzsim.NowNano(); d > 0 {
		h.Sleep(d)
	}
	led.settle(60*sec, "although every receiver goes on")
	// who shares nothing with a stalled receiver is not held up
	for _, l := range list {
		for _, x := range l.msgs {
			calm := true
			for _, d := range disturbed[l] {
				if x.at+c22calm > d.from && x.at < d.to+c22calm {
					calm = false
				}
			}
			if calm {
				h.Obs()
				if x.gotAt-x.at > c22calm {
					h.Fail("held-up", "%s: message %d took %d ms although it shares neither endpoint nor connection with a stalled receiver", l.name, x.seq, (x.gotAt-x.at)/ms)
				}
			}
		}
	}
	h.Sleep(sec)
}
