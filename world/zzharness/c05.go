package main

import (
	"fmt"
	stdtime "time"

	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// C05: deleting a transport releases everything it owned.

func init() {
	register(&Scenario{ID: "C05", Gen: genC05, Run: runC05,
		Min: map[string]int{"unix": 0, "slow": 0, "stale": 0, "traffic": 0, "hb": 0}})
}

func genC05(g *zzsim.Rng, p *Plan) {
	p.P["ref"] = g.Intn(7) / 6
	p.P["unix"] = g.Intn(2)
	p.P["client"] = g.Intn(3) / 2
	p.P["hb"] = g.Intn(3) / 2
	p.P["traffic"] = g.Intn(2)
	if g.Intn(3) == 0 {
		p.P["slow"] = []int{1, 20, 400}[g.Intn(3)] // ms per announced connection
	}
	if p.P["unix"] == 1 {
		p.P["stale"] = g.Intn(2)
	}
	if p.P["client"] == 1 {
		p.P["dial"] = g.Intn(4) // 0 reachable, 1 refused, 2 unanswered, 3 mixed
	}
	at := int64(0)
	present := false
	for i := many(g, 2, 10, 20, 50); i > 0; i-- {
		switch g.Intn(6) {
		case 0: // at once
		case 1:
			at += int64(g.Intn(60))
		case 2:
			at += int64(g.Intn(3000))
		case 3:
			at += int64(g.Intn(300000))
		case 4:
			at += int64(g.Intn(1500000))
		case 5:
			at += 1600000 + int64(g.Intn(1500000))
		}
		if present && g.Intn(4) == 0 {
			p.add(at, "churn", "arm", g.Intn(2)) // delete from an event listener
			at += int64(g.Intn(200000))
			p.add(at, "churn", "disarm")
		}
		if present {
			p.add(at, "churn", "del")
		} else {
			p.add(at, "churn", "add")
		}
		present = !present
	}
	if g.Intn(4) == 0 {
		// a second goroutine adds and deletes the same transport
		p.P["overlap"] = 1
		var times []int64
		for _, o := range p.Ops {
			if o.K == "add" || o.K == "del" {
				times = append(times, o.At)
			}
		}
		for i := g.Range(1, 8); i > 0; i-- {
			t := times[g.Intn(len(times))] + []int64{0, 0, 1, 20}[g.Intn(4)]
			p.add(t, "churn2", []string{"add", "del"}[g.Intn(2)])
		}
	}
	for i := g.Intn(14); i > 0; i-- {
		p.add(int64(g.Intn(int(at)+1000)), fmt.Sprintf("D%d", i%4), "dial", g.Intn(2))
	}
	if g.Intn(4) == 0 { // a burst fills the queue of accepted connections
		b := int64(g.Intn(int(at) + 1000))
		for i := []int{0, 0, -12}[g.Intn(3)]; i < 20; i++ {
			p.add(b+int64(g.Intn(50)), fmt.Sprintf("D%d", (i+12)%4), "dial", 0)
		}
	}
}

// runC05ref does the same with a reference transport.
func runC05ref(h *H) {
	const grace = 1500 * ms
	type obj struct{ n int }
	var (
		tp         ustack.Transport
		present    bool
		busy       bool
		delRet     int64 = -1
		armed      bool
		armKind    int
		cycles     int
		quit       bool
		conns      []ustack.TransportConnection // of tp
		other      [2]ustack.TransportConnection
		peer       ustack.TransportConnection
		eps        [2]*EP
		got        = map[*obj]int{}
		nodes      = []string{"S", "P"}
		stks       [2]*Stk
		otherEnded bool
	)
	add := func(u ustack.UStack) {
		if present || busy {
			return
		}
		busy, delRet = true, -1
		u.AddTransport(tp)
		present, busy = true, false
	}
	del := func(u ustack.UStack) {
		if !present || busy {
			return
		}
		busy = true
		u.DeleteTransport(tp)
		present = false
		delRet = zzsim.NowNano()
		cycles++
		busy = false
	}
	ref := func(name, addr string, server bool) ustack.Transport {
		t := ustack.NewReferenceTransport(name).SetAddress(addr).ForServer(server)
		if h.p("slow") > 0 {
			t.SetOption("MaxQueueSize", 2)
		}
		return t
	}
	srv := h.p("client") == 0
	for i := range nodes {
		i := i
		k := h.newStk(nodes[i], 300)
		stks[i] = k
		k.OnEv = func(e Ev) {
			switch e.Type {
			case ustack.UStackEventNewConnection:
				h.Obs()
				if e.Conn.GetName() == "other" {
					other[i] = e.Conn
					return
				}
				if i == 1 {
					peer = e.Conn
					return
				}
				conns = append(conns, e.Conn)
				if !present && !busy && delRet >= 0 && zzsim.NowNano() > delRet+grace {
					h.Fail("announced-after-delete", "new reference connection announced %d ms after the deletion of the transport had returned", (zzsim.NowNano()-delRet)/ms)
				}
				if m := h.p("slow"); m > 0 {
					h.Sleep(int64(m) * ms)
				}
				if armed && armKind == 0 {
					armed = false
					del(k.U)
				}
			case ustack.UStackEventConnectionClosed:
				if e.Conn == other[i] || i == 1 {
					otherEnded = true
				}
				if i == 0 && armed && armKind == 1 {
					armed = false
					del(k.U)
				}
			}
		}
		h.Must(nodes[i], "build", func() {
			eps[i] = newEP("ep", 0, 0)
			h.recvLoop(nodes[i], eps[i], true, func(d ustack.EndPointData) {
				o, ok := d.GetData().(*obj)
				if !ok {
					h.Fail("unknown-data", "%s is given %T", nodes[i], d.GetData())
				}
				got[o]++
			})
			k.U.AddEndPoint(eps[i])
			k.U.AddTransport(ref("other", "c05other", i == 0))
			if i == 1 {
				k.U.AddTransport(ref("t", "c05t", !srv))
			}
			k.U.Run()
			if i == 0 {
				tp = ref("t", "c05t", srv)
			}
		})
	}
	if !h.Wait(20*sec, func() bool { return other[0] != nil && other[1] != nil && peer != nil }) {
		h.Fail("no-connection", "the reference connections were not announced within 20 s")
	}
	base := zzsim.LiveTasks(h.Node("S"))
	verify := func() {
		if present || busy || delRet < 0 {
			return
		}
		d := delRet
		for _, c := range append([]ustack.TransportConnection(nil), conns...) {
			if !c.Closed() && delRet == d {
				h.Fail("connection-leak", "a connection of the deleted reference transport does not say it is closed")
			}
		}
	}
	h.Go("main", "watch", func() {
		for !quit {
			d := delRet
			if d >= 0 && !present && !busy && zzsim.NowNano() > d+grace {
				verify()
			}
			h.Sleep(100 * ms)
		}
	})
	start := zzsim.NowNano()
	if h.p("traffic") == 1 {
		for i := range nodes {
			i := i
			h.Go(nodes[i], "traffic", func() {
				for j := 0; j < 20 && !quit; j++ {
					c := peer
					if i == 0 {
						if len(conns) == 0 {
							h.Sleep(50 * ms)
							continue
						}
						c = conns[len(conns)-1]
					}
					o := &obj{j}
					h.Go(nodes[i], "put", func() { c.SetReference(o) })
					h.Sleep(90 * ms)
				}
			})
		}
	}
	overlap := h.p("overlap") == 1
	busy = overlap
	change := func(o Op) {
		u := stks[0].U
		switch {
		case overlap && o.K == "add":
			u.AddTransport(tp)
		case overlap && o.K == "del":
			u.DeleteTransport(tp)
			cycles++
		case overlap:
		case o.K == "add":
			add(u)
		case o.K == "del":
			del(u)
		case o.K == "arm":
			armed, armKind = true, o.A
		case o.K == "disarm":
			armed = false
		}
	}
	done := h.actor("S", "churn", start, change)
	done2 := h.actor("S", "churn2", start, change)
	if !h.Wait(60*sec, func() bool { return *done && *done2 && (!busy || overlap) }) {
		h.Fail("blocked", "adding or deleting a reference transport did not return: %v", zzsim.TaskNames(h.Node("S")))
	}
	armed = false
	h.Sleep(sec)
	if overlap {
		h.Must("S", "registered", func() {
			for _, t := range stks[0].U.GetTransport() {
				present = present || t == tp
			}
		})
		if !present {
			delRet = zzsim.NowNano()
		}
		busy = false
	}
	if present {
		h.Sleep(sec)
		open := 0
		for _, c := range append([]ustack.TransportConnection(nil), conns...) {
			if !c.Closed() {
				open++
			}
		}
		if open != 1 {
			h.Fail("not-serving", "%d reference connections are open although the transport is there", open)
		}
		h.Must("S", "delete", func() { del(stks[0].U) })
	}
	h.Sleep(2 * grace)
	verify()
	h.Sleep(2 * sec) // the senders of the traffic
	quit = true
	h.Sleep(200 * ms)
	// what waits on the peer's side may stay there
	if n := zzsim.LiveTasks(h.Node("S")); n > base+2 && cycles > 2 {
		h.Fail("goroutine-leak", "%d goroutines more than before, after %d additions and deletions: %v", n-base, cycles, zzsim.TaskNames(h.Node("S")))
	}
	quit = false
	n := len(conns)
	h.Must("S", "add", func() { add(stks[0].U) })
	if !h.Wait(30*sec, func() bool { return len(conns) > n }) {
		h.Fail("not-serving", "the reference transport announced no connection within 30 s of being added again")
	}
	if len(conns) != n+1 || conns[n].Closed() {
		h.Fail("not-serving", "%d connections announced when the reference transport was added again", len(conns)-n)
	}
	probes := []*obj{{101}, {102}, {103}, {104}}
	for i := range nodes {
		i := i
		h.Go(nodes[i], "probe", func() {
			c := peer
			if i == 0 {
				c = conns[n]
			}
			send(eps[i], other[i], probes[i])
			send(eps[i], c, probes[2+i])
		})
	}
	for _, o := range probes {
		o := o
		if !h.Wait(30*sec, func() bool { return got[o] > 0 }) {
			h.Fail("not-serving", "object %d does not arrive within 30 s although the transport was added again", o.n)
		}
	}
	if otherEnded || other[0].Closed() || other[1].Closed() || peer.Closed() {
		h.Fail("other-transport-disturbed", "a connection of another transport was closed")
	}
	h.Must("S", "delete", func() { del(stks[0].U) })
	h.Sleep(2 * grace)
	verify()
	quit = true
	h.Sleep(200 * ms)
}

func runC05(h *H) {
	if h.p("ref") == 1 {
		runC05ref(h)
		return
	}
	unix := h.p("unix") == 1
	client := h.p("client") == 1
	addr := addrFor(unix, 0)
	addr2 := addrFor(false, 7)
	network := "tcp"
	if unix {
		network = "unix"
		if h.p("stale") == 1 && !client && h.p("overlap") == 0 {
			h.Net.PutStale(addr)
		}
	}
	const grace = 1500 * ms
	procs := []string{}
	if h.p("hb") == 1 {
		procs = append(procs, "heartbeat")
	}
	s := h.newStk("S", 300).framed(codecBytes, procs, 0)
	var (
		tp           ustack.Transport
		present      bool
		busy         bool
		addRet       int64
		delRet       int64 = -1
		armed        bool
		armKind      int
		cycles       int
		base         int
		stableS      ustack.TransportConnection
		stableClosed bool
	)
	known := map[ustack.TransportConnection]bool{}
	l := newLedger(h, codecBytes)
	var sep *EP
	add := func() {
		if present || busy {
			return
		}
		busy = true
		delRet = -1
		zzsim.Logf("AddTransport")
		s.U.AddTransport(tp)
		zzsim.Logf("AddTransport returned")
		present = true
		addRet = zzsim.NowNano()
		busy = false
	}
	del := func() {
		if !present || busy {
			return
		}
		busy = true
		zzsim.Logf("DeleteTransport")
		s.U.DeleteTransport(tp)
		zzsim.Logf("DeleteTransport returned")
		present = false
		delRet = zzsim.NowNano()
		cycles++
		busy = false
	}
	s.OnEv = func(e Ev) {
		switch e.Type {
		case ustack.UStackEventNewConnection:
			h.Obs()
			if stableS == nil {
				stableS = e.Conn // the stable client is connected before anything else happens
				return
			}
			known[e.Conn] = true
			if !present && !busy && delRet >= 0 && zzsim.NowNano() > delRet+grace {
				h.Fail("announced-after-delete", "new connection announced %d ms after the deletion of the transport had returned", (zzsim.NowNano()-delRet)/ms)
			}
			if m := h.p("slow"); m > 0 {
				h.Sleep(int64(m) * ms)
			}
			if armed && armKind == 0 {
				armed = false
				del()
			}
		case ustack.UStackEventConnectionClosed:
			if e.Conn == stableS {
				stableClosed = true
			}
			if armed && armKind == 1 && known[e.Conn] {
				armed = false
				del()
			}
		}
	}
	tag := 0
	h.Must("S", "build", func() {
		sep = newEP("ep", 0, 0)
		h.recvLoop("S", sep, true, func(d ustack.EndPointData) { l.arrive("S", d.GetData(), nil) })
		s.U.AddEndPoint(sep)
		s.U.AddTransport(newTransport(false, true, "stable", addr2))
		s.U.Run()
		tp = newTransport(unix, !client, "t", addr)
		if client {
			tp.SetOption("MaxRetryCount", 1000)
		}
	})
	// a stable client of another transport of the same stack
	mkClient := func(node string, unix bool, addr string) (*Stk, *EP, *ustack.TransportConnection) {
		c := h.newStk(node, 300).framed(codecBytes, procs, 0)
		conn := new(ustack.TransportConnection)
		c.OnEv = func(e Ev) {
			if e.Type == ustack.UStackEventNewConnection && *conn == nil {
				*conn = e.Conn
			}
		}
		var ep *EP
		h.Must(node, "build", func() {
			ep = newEP("ep", 0, 0)
			h.recvLoop(node, ep, true, func(d ustack.EndPointData) { l.arrive(node, d.GetData(), nil) })
			c.U.AddEndPoint(ep)
			c.U.AddTransport(newTransport(unix, false, "t", addr))
			c.U.Run()
		})
		return c, ep, conn
	}
	st, stEP, stConn := mkClient("Z", false, addr2)
	_ = st
	if !h.Wait(20*sec, func() bool { return *stConn != nil && stableS != nil }) {
		h.Fail("no-connection", "the stable client did not connect within 20 s")
	}
	base = zzsim.LiveTasks(h.Node("S"))
	room := s.room()
	exchange := func(node string, ep *EP, conn ustack.TransportConnection, sc ustack.TransportConnection) {
		tag++
		m1, b1 := l.make(node, tag, 1, 40, room)
		m1.must = true
		h.Go(node, "probe", func() { send(ep, conn, b1) })
		if sc != nil {
			m2, b2 := l.make("S->"+node, tag, 2, 40, room)
			m2.must = true
			h.Go("S", "probe", func() { send(sep, sc, b2) })
		}
	}
	start := zzsim.NowNano()
	// traffic on the stable connection
	quit := false
	if h.p("traffic") == 1 {
		h.Go("Z", "traffic", func() {
			for i := 0; i < 30 && !quit; i++ {
				m, b := l.make("Z-traffic", 5000, i, 30, room)
				m.must = true
				send(stEP, *stConn, b)
				h.Sleep(90 * ms)
			}
		})
	}
	if client {
		// the other side
		srvUp := false
		up := func() {
			if srvUp {
				return
			}
			srvUp = true
			h.Go("P", "server", func() {
				ln, err := snet.Listen(network, addr)
				if err != nil {
					h.Fail("sim-stuck", "peer cannot listen: %v", err)
					return
				}
				for {
					c, err := ln.Accept()
					if err != nil {
						return
					}
					h.Go("P", "sink", func() {
						b := make([]byte, 64)
						for {
							if _, err := c.Read(b); err != nil {
								c.Close()
								return
							}
						}
					})
				}
			})
		}
		switch h.p("dial") {
		case 0:
			up()
		case 2:
			up()
			h.Net.Cut("S", "P")
		case 3:
			up()
			h.Net.DialFault = func(node string, nth int, a string) string {
				return []string{"", "refuse", "drop"}[zzsim.Mix(h.P.Seed, nth)%3]
			}
		}
		h.Sleep(ms)
	} else {
		for i := 0; i < 4; i++ {
			node := fmt.Sprintf("D%d", i)
			h.actor(node, node, start, func(o Op) {
				c, err := snet.DialTimeout(network, addr, stdtime.Second)
				if err != nil {
					return
				}
				h.Go(node, "hold", func() {
					if o.A == 1 {
						c.Write([]byte{0, 0, 0, 3, 0})
					}
					b := make([]byte, 64)
					for {
						if _, err := c.Read(b); err != nil {
							c.Close()
							return
						}
					}
				})
			})
		}
	}
	// when a deletion has taken effect
	verify := func() {
		if present || busy || delRet < 0 {
			return
		}
		h.Obs()
		if h.Net.OpenListeners("S") > 1 || (!client && h.Net.Listening(network, addr)) {
			h.Fail("still-listening", "%s %s is still served %d ms after the deletion had returned", network, addr, (zzsim.NowNano()-delRet)/ms)
		}
		if n := h.Net.OpenConns("S"); n > 1 {
			h.Fail("connection-leak", "%d connections of the deleted transport are still open %d ms after the deletion had returned", n-1, (zzsim.NowNano()-delRet)/ms)
		}
		if !client && unix && h.Net.PathExists(addr) {
			h.Fail("socket-file-left", "socket file %s still exists after the deletion", addr)
		}
		d := delRet
		for _, c := range s.Conns[1:] {
			if !c.Closed() && delRet == d { // Closed is a scheduling point
				h.Fail("connection-leak", "a connection of the deleted transport does not say it is closed")
			}
		}
	}
	h.Go("main", "watch", func() {
		for !quit {
			d := delRet
			if d < 0 || present || busy {
				h.Sleep(50 * ms)
				continue
			}
			if w := d + grace - zzsim.NowNano(); w > 0 {
				h.Sleep(w)
				if delRet != d {
					continue
				}
			}
			verify()
			h.Sleep(100 * ms)
		}
	})
	attemptsAfter := func() int {
		n := 0
		for _, a := range h.Net.Attempts {
			if a.Node == "S" && delRet >= 0 && a.Start > delRet+100*ms {
				n++
			}
		}
		return n
	}
	overlap := h.p("overlap") == 1
	busy = overlap
	change := func(o Op) {
		if overlap {
			switch o.K {
			case "add":
				s.U.AddTransport(tp)
			case "del":
				s.U.DeleteTransport(tp)
				cycles++
			}
			return
		}
		switch o.K {
		case "add":
			add()
		case "del":
			del()
		case "arm":
			armed, armKind = true, o.A
		case "disarm":
			armed = false
		}
	}
	done := h.actor("S", "churn", start, change)
	done2 := h.actor("S", "churn2", start, change)
	if !h.Wait(60*sec, func() bool { return *done && *done2 && (!busy || overlap) }) {
		h.Fail("blocked", "adding or deleting a transport did not return: %v", zzsim.TaskNames(h.Node("S")))
	}
	armed = false
	if overlap {
		// whatever the order was, it is served if and only if it is registered
		h.Must("S", "registered", func() {
			for _, t := range s.U.GetTransport() {
				present = present || t == tp
			}
		})
		addRet = zzsim.NowNano()
		if !present {
			delRet = addRet
		}
		busy = false
	}
	if present {
		// it has to be there, and to stay
		for i := 0; i < 2; i++ {
			if !client && !h.Net.Listening(network, addr) {
				h.Fail("not-listening", "%s %s is not served although the transport was added %d ms ago", network, addr, (zzsim.NowNano()-addRet)/ms)
			}
			h.Sleep(5 * sec)
		}
		// nothing an earlier incarnation accepted is left behind
		open := 0
		if !h.Wait(30*sec, func() bool {
			open = 0
			for _, c := range s.Conns {
				if !c.Closed() {
					open++
				}
			}
			return h.Net.OpenConns("S") <= open
		}) {
			h.Fail("connection-leak", "%d connections are open but only %d were announced: the others belong to a deleted incarnation of the transport", h.Net.OpenConns("S"), open)
		}
		h.Must("S", "delete", del)
	}
	h.Sleep(2 * grace)
	verify()
	if n := attemptsAfter(); client && n > 0 {
		h.Fail("dial-after-delete", "%d dial attempts after the transport was deleted", n)
	}
	if n := zzsim.LiveTasks(h.Node("S")); n > base+2 && cycles > 2 {
		h.Fail("goroutine-leak", "%d goroutines more than before, after %d additions and deletions: %v", n-base, cycles, zzsim.TaskNames(h.Node("S")))
	}
	// and it serves again
	h.Net.DialFault = nil
	if client {
		h.Net.Heal("S", "P")
		if h.p("dial") == 1 {
			h.Go("P", "server", func() {
				ln, err := snet.Listen(network, addr)
				if err == nil {
					for {
						if _, err := ln.Accept(); err != nil {
							return
						}
					}
				}
			})
			h.Sleep(ms)
		}
	}
	n := len(s.Conns)
	h.Must("S", "add", add)
	if client {
		if !h.Wait(30*sec, func() bool { return len(s.Conns) > n }) {
			h.Fail("not-serving", "the client transport did not connect within 30 s of being added again")
		}
	} else {
		_, ep, conn := mkClient("Y", unix, addr)
		if !h.Wait(30*sec, func() bool { return len(s.Conns) > n && *conn != nil }) {
			h.Fail("not-serving", "no connection within 30 s of adding the transport again")
		}
		var sc ustack.TransportConnection
		if len(s.Conns) == n+1 {
			sc = s.Conns[n]
		}
		exchange("Y", ep, *conn, sc)
	}
	exchange("Z", stEP, *stConn, stableS)
	if !h.Wait(30*sec, func() bool { return l.missing() == nil }) {
		l.settle(10*sec, "after the changes of the transport")
	}
	if stableClosed || stableS.Closed() {
		h.Fail("other-transport-disturbed", "the connection of another transport was closed")
	}
	h.Must("S", "delete", del)
	h.Sleep(2 * grace)
	verify()
	quit = true
	h.Sleep(200 * ms)
}
