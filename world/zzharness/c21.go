package main

import (
	"fmt"

	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// C21: what comes and goes leaves nothing behind.

func init() {
	register(&Scenario{ID: "C21", Gen: genC21, Run: runC21,
		Min: map[string]int{"procs": 0, "ref": 0, "stat": 0, "hb": 0, "slow": 0, "eps": 1}})
}

func genC21(g *zzsim.Rng, p *Plan) {
	p.P["trans"] = g.Range(1, 3) // bit 0 TCP, bit 1 Unix
	p.P["eps"] = g.Range(1, 3)
	p.P["hb"] = g.Intn(3)   // heartbeat interval, 0: none
	p.P["stat"] = g.Intn(3) // collection interval, 0: none
	p.P["closelost"] = g.Intn(2)
	if g.Intn(3) == 0 {
		p.P["procs"] = g.Range(1, 1<<20)
	}
	p.P["ref"] = g.Intn(3) / 2
	p.P["strip"] = g.Intn(2)
	p.P["jam"] = g.Intn(2)
	p.P["small"] = []int{0, 0, 1}[g.Intn(3)]
	if g.Intn(4) == 0 {
		p.P["slow"] = []int{1, 30}[g.Intn(2)]
	}
	if p.Net.Window < 200 {
		p.Net.Window = 200
	}
	span := []int{3000, 200000, 4000000}[g.Intn(3)]
	at := func() int64 { return int64(g.Intn(span)) }
	for i := g.Range(1, 10); i > 0; i-- {
		// a raw client: what it says (0 nothing, 1 messages, 2 garbage, 3 half a message),
		// how it ends (0 close, 1 reset, 2 vanish, 3 stays), whether it stops reading
		p.add(at(), fmt.Sprintf("D%d", i), "dial", g.Intn(4), g.Intn(4), g.Intn(4)/3)
		p.add(int64(span)+at(), fmt.Sprintf("D%d", i), "end")
	}
	for i := g.Intn(10); i > 0; i-- {
		p.add(at(), fmt.Sprintf("E%d", g.Intn(p.P["eps"])), "send", g.Range(1, 150), g.Intn(8))
	}
	for i := g.Intn(6); i > 0; i-- {
		p.add(at(), "churn", []string{"delT", "delE", "listener", "delC", "delE", "close", "dead", "toggle", "giveup"}[g.Intn(9)], g.Intn(3), g.Range(0, 3000))
	}
	for i := g.Intn(3); i > 0; i-- {
		p.add(at(), "churn", "crowd", g.Range(1, 12)) // so many connections at once, closed right away
	}
}

func runC21(h *H) {
	var stats []ustack.DataProcessor
	mk := func(node string) *Stk {
		s := h.newStk(node, 300).codec(codecBytes)
		for _, x := range procsFrom(h.p("procs")) {
			if x != "heartbeat" && x != "session" {
				s.add(mkProc(x))
			}
		}
		if k := h.p("stat"); k > 0 {
			sc := ustack.NewStatCounter().SetOption("Collect.IntervalInSecond", k)
			stats = append(stats, sc)
			s.add(sc)
		}
		if k := h.p("hb"); k > 0 {
			s.add(ustack.NewHeartbeat().SetOption("IntervalInSecond", k).SetOption("TimeoutInSecond", 4).SetOption("CloseOnLost", h.p("closelost") == 1))
		}
		return s.add(ustack.NewSessionResolver()).add(ustack.NewFrameDecoder())
	}
	srv := mk("S")
	if d := h.p("slow"); d > 0 {
		srv.OnEv = func(e Ev) { h.Sleep(int64(d) * ms) }
	}
	var tps []ustack.Transport
	var addrs [][2]string
	for k := 0; k < 2; k++ {
		if h.p("trans")&(1<<k) != 0 {
			tps = append(tps, newTransport(k == 1, true, fmt.Sprintf("t%d", k), addrFor(k == 1, 0)))
			addrs = append(addrs, [2]string{[]string{"tcp", "unix"}[k], addrFor(k == 1, 0)})
		}
	}
	var eps []*EP
	got := 0
	listen := func(e *EP) {
		e.EndPoint.SetDataListener(func(_ ustack.EndPoint, d ustack.EndPointData) { got++ })
	}
	for i := 0; i < h.p("eps"); i++ {
		eps = append(eps, newEP(fmt.Sprintf("ep%d", i), i, 0))
	}
	jam := newEP("jam", 5, 1) // nobody ever takes anything from it
	all := eps
	if h.p("jam") == 1 && h.p("strip") == 1 {
		all = append(append([]*EP(nil), eps...), jam)
	}
	attached := func(on bool) {
		for _, e := range all {
			if on {
				if e != jam {
					listen(e)
				}
				srv.U.AddEndPoint(e)
			} else {
				srv.U.DeleteEndPoint(e)
				e.EndPoint.SetDataListener(nil)
			}
		}
		for _, t := range tps {
			if on {
				srv.U.AddTransport(t)
			} else {
				srv.U.DeleteTransport(t)
			}
		}
	}
	// a client stack and a pair of stacks joined by a reference transport
	cli := mk("C")
	cep := newEP("ep", 0, h.p("small"))
	// what it is sent is taken, or its receiver waits for room
	h.recvLoop("U", cep, false, func(ustack.EndPointData) {})
	ctp := newTransport(addrs[0][0] == "unix", false, "t", addrs[0][1])
	// and one whose server is never there
	dtp := newTransport(h.p("trans") == 2, false, "dead", addrFor(h.p("trans") == 2, 7))
	type half struct {
		s  *Stk
		tp ustack.Transport
		ep *EP
	}
	var ref [2]*half
	h.Must("C", "build", func() {
		cli.U.AddEndPoint(cep)
		cli.U.Run()
	})
	if h.p("ref") == 1 {
		for k := range ref {
			x := &half{s: h.newStk(fmt.Sprintf("R%d", k), 0), tp: ustack.NewReferenceTransport("r").SetAddress("ref").ForServer(k == 0), ep: newEP("ep", 0, 0)}
			ref[k] = x
			h.Must(x.s.Node, "build", func() { x.s.U.AddEndPoint(x.ep); x.s.U.Run() })
		}
	}
	h.Must("S", "build", func() {
		srv.U.Run()
		attached(true)
	})
	// the smallest thing that comes and goes
	warm := func() bool {
		ok := false
		if !h.Call("C", "warm", 60*sec, func() {
			n := len(cli.Conns)
			cli.U.AddTransport(ctp)
			if !h.Wait(30*sec, func() bool { return len(cli.Conns) > n }) {
				return
			}
			g := got
			send(cep, cli.Conns[len(cli.Conns)-1], payload(1, 1, 20))
			ok = h.Wait(30*sec, func() bool { return got > g })
			cli.U.DeleteTransport(ctp)
		}) {
			return false
		}
		for _, a := range addrs {
			a := a
			if !h.Call("D", "warm", 60*sec, func() {
				c, err := snet.Dial(a[0], a[1])
				if err != nil {
					ok = false
					return
				}
				h.Sleep(100 * ms)
				c.Close()
			}) {
				return false
			}
		}
		for _, x := range ref {
			if x == nil {
				continue
			}
			x := x
			if !h.Call(x.s.Node, "warm", 60*sec, func() {
				n := len(x.s.Conns)
				x.s.U.AddTransport(x.tp)
				if !h.Wait(10*sec, func() bool { return len(x.s.Conns) > n }) {
					ok = false
				}
				x.s.U.DeleteTransport(x.tp)
			}) {
				return false
			}
		}
		return ok
	}
	if !warm() {
		h.Fail("not-serving", "the stack does not serve its first connection")
	}
	detach := func() bool {
		if h.p("strip") == 1 {
			return h.Call("S", "strip", 60*sec, func() { attached(false) })
		}
		return true
	}
	attach := func() bool {
		return h.Call("S", "attach", 60*sec, func() { attached(true) })
	}
	if !detach() {
		h.Fail("blocked", "deletion does not return: %v", zzsim.TaskNames(h.Node("S")))
	}
	h.Sleep(15 * sec)
	nodes := []string{"S", "C"}
	if ref[0] != nil {
		nodes = append(nodes, "R0", "R1")
	}
	base := map[string]int{}
	listeners := h.Net.OpenListeners("S")
	for _, n := range nodes {
		base[n] = zzsim.LiveTasks(h.Node(n))
	}
	if k := h.Net.OpenConns("S") + h.Net.OpenConns("C"); k > 0 {
		h.Fail("socket-left", "%d sockets are open after the first connections have gone", k)
	}
	if !attach() {
		h.Fail("blocked", "addition does not return: %v", zzsim.TaskNames(h.Node("S")))
	}
	// the history
	var pairs []*snet.Pair
	h.Net.OnPair = func(p *snet.Pair) { pairs = append(pairs, p) }
	start := zzsim.NowNano()
	var done []*bool
	seq := 0
	for i := range eps {
		e := eps[i]
		h.actor("S", fmt.Sprintf("E%d", i), start, func(o Op) {
			if n := len(srv.Conns); n > 0 {
				seq++
				b := payload(i, seq, o.A)
				c := srv.Conns[o.B%n]
				// a full queue of a deleted endpoint is not decided here
				if len(e.GetTxChannel()) < 400 {
					send(e, c, b)
				}
			}
		})
	}
	names := map[string]bool{}
	for _, o := range h.P.Ops {
		if o.Who[0] == 'D' && !names[o.Who] {
			names[o.Who] = true
			who := o.Who
			k := 0
			fmt.Sscanf(who, "D%d", &k)
			a := addrs[k%len(addrs)]
			var c snetConn
			how := 0
			var mine *snet.Pair
			done = append(done, h.actor(who, who, start, func(o Op) {
				switch o.K {
				case "dial":
					n := len(pairs)
					x, err := snet.Dial(a[0], a[1])
					if err != nil {
						return
					}
					for _, p := range pairs[n:] {
						if p.ClientNode == who {
							mine = p
						}
					}
					c, how = x, o.B
					if o.C == 0 {
						h.Go(who, "reader", func() {
							b := make([]byte, 256)
							for {
								if _, err := x.Read(b); err != nil {
									return
								}
							}
						})
					}
					h.Go(who, "writer", func() {
						switch o.A {
						case 1:
							for i := 0; i < 3; i++ {
								x.Write([]byte{0, 0, 0, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, byte(i), 'x'})
							}
						case 2:
							x.Write(payload(7, k, 40))
						case 3:
							x.Write([]byte{0, 0, 0, 99, 0, 0})
						}
					})
				case "end":
					if c == nil {
						return
					}
					switch how {
					case 0:
						c.Close()
					case 1:
						if mine != nil {
							mine.Reset()
						}
					}
				}
			}))
			for _, o := range h.ops(who) {
				if o.K == "dial" && o.B == 2 {
					// vanishes: nothing is heard of it any more
					zzsim.After(start+(o.At+50000)*us-zzsim.NowNano(), func() {
						zzsim.Count("fault.silent", 1)
						zzsim.KillNode(h.Node(who))
						h.Net.CrashNode(who, true)
						for _, p := range pairs {
							if p.ClientNode == who {
								p.Stall(0, zzsim.NowNano()+3600*sec)
								p.Stall(1, zzsim.NowNano()+3600*sec)
							}
						}
					})
				}
			}
		}
	}
	cdone := h.actor("main", "churn", start, func(o Op) {
		zzsim.Count("fault.churn", 1)
		pause := int64(o.B) * us
		switch o.K {
		case "delT":
			if h.p("strip") == 0 {
				return // whoever still waits for the old run's connections ends with the new run
			}
			t := tps[o.A%len(tps)]
			h.Go("S", "delT", func() { srv.U.DeleteTransport(t); h.Sleep(pause); srv.U.AddTransport(t) })
		case "delE":
			e := eps[o.A%len(eps)]
			h.Go("S", "delE", func() { srv.U.DeleteEndPoint(e); h.Sleep(pause); srv.U.AddEndPoint(e) })
		case "listener":
			e := eps[o.A%len(eps)]
			h.Go("S", "listener", func() {
				if o.B%2 == 0 {
					e.EndPoint.SetDataListener(nil)
					h.Sleep(pause)
				}
				listen(e)
			})
		case "close":
			if n := len(srv.Conns); n > 0 {
				c := srv.Conns[(n-1+o.A)%n]
				h.Go("S", "close", func() { c.Close() })
			}
		case "delC":
			h.Go("C", "client", func() {
				n := len(cli.Conns)
				cli.U.AddTransport(ctp)
				h.Sleep(pause)
				for i := 0; i < 3 && len(cli.Conns) > n; i++ {
					seq++
					d := ustack.NewEndPointData().SetConnection(cli.Conns[len(cli.Conns)-1]).SetData(payload(8, seq, 12)).SetDestinationSession(5)
					if len(cep.GetTxChannel()) < cap(cep.GetTxChannel()) {
						zzsim.To(cep.GetTxChannel()).Send(-100, d)
					}
				}
				h.Sleep(pause)
				cli.U.DeleteTransport(ctp)
			})
			for _, x := range ref {
				if x == nil {
					continue
				}
				x := x
				h.Go(x.s.Node, "ref", func() { x.s.U.AddTransport(x.tp); h.Sleep(pause); x.s.U.DeleteTransport(x.tp) })
			}
		case "toggle":
			for _, x := range stats {
				x.SetEnable(o.B%2 == 0)
			}
		case "dead":
			h.Go("C", "dead", func() { cli.U.AddTransport(dtp); h.Sleep(pause * 1000); cli.U.DeleteTransport(dtp) })
		case "giveup":
			// never deleted: once it has given up nothing of it is left
			t := newTransport(h.p("trans") == 2, false, "giveup", addrFor(h.p("trans") == 2, 7)).SetOption("MaxRetryCount", 1+o.A)
			h.Go("C", "giveup", func() { cli.U.AddTransport(t) })
		case "crowd":
			for i := 0; i < o.A; i++ {
				a := addrs[i%len(addrs)]
				h.Go("D", "crowd", func() {
					if c, err := snet.Dial(a[0], a[1]); err == nil {
						c.Write([]byte{0, 0, 0, 9})
						c.Close()
					}
				})
			}
		}
	})
	last := int64(0)
	for _, o := range h.P.Ops {
		if o.At > last {
			last = o.At
		}
	}
	h.Until(start/us + last)
	h.Wait(60*sec, func() bool { return *cdone })
	h.Sleep(4 * sec) // whoever was adding again has added again
	// everything ends
	if !h.Call("C", "client", 60*sec, func() { cli.U.DeleteTransport(ctp) }) {
		h.Fail("blocked", "deletion does not return: %v", zzsim.TaskNames(h.Node("C")))
	}
	for _, x := range ref {
		if x != nil {
			x := x
			if !h.Call(x.s.Node, "ref", 60*sec, func() { x.s.U.DeleteTransport(x.tp) }) {
				h.Fail("blocked", "deletion does not return: %v", zzsim.TaskNames(h.Node(x.s.Node)))
			}
		}
	}
	for _, p := range pairs {
		if h.p("strip") == 1 && p.ClientNode != "C" {
			continue // whatever is still open goes with its transport
		}
		if !p.ClosedBy(1) {
			p.Reset()
		}
	}
	h.Sleep(sec)
	if !detach() {
		h.Fail("blocked", "deletion does not return: %v", zzsim.TaskNames(h.Node("S")))
	}
	if h.p("strip") == 0 {
		// listeners as at the beginning
		if !h.Call("S", "listeners", 60*sec, func() {
			for _, e := range eps {
				listen(e)
			}
		}) {
			h.Fail("blocked", "setting a data listener does not return: %v", zzsim.TaskNames(h.Node("S")))
		}
	}
	left := func() string {
		for _, n := range nodes {
			if k := zzsim.LiveTasks(h.Node(n)); k > base[n] {
				return fmt.Sprintf("goroutine-left/%s: %d goroutines, %d before: %v", n, k, base[n], zzsim.TaskNames(h.Node(n)))
			}
			if k := h.Net.OpenConns(n); k > 0 {
				return fmt.Sprintf("socket-left/%s: %d sockets are open", n, k)
			}
		}
		if k := h.Net.OpenListeners("S"); k > listeners {
			return fmt.Sprintf("socket-left/S: %d listening sockets, %d before", k, listeners)
		}
		return ""
	}
	h.Obs()
	if !h.Wait(120*sec, func() bool { return left() == "" }) {
		s := left()
		class := "goroutine-left"
		if s[0] == 's' {
			class = "socket-left"
		}
		h.Fail(class, "120 s after every connection has gone: %s", s)
	}
	// and it serves as before
	if h.p("strip") == 1 && !attach() {
		h.Fail("blocked", "addition does not return: %v", zzsim.TaskNames(h.Node("S")))
	}
	if !warm() {
		h.Fail("not-serving", "the stack does not serve connections any more")
	}
}
