package main

import (
	"fmt"
	"sort"

	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// C24: what a stack keeps in memory does not grow with what has gone.

func init() {
	register(&Scenario{ID: "C24", Gen: genC24, Run: runC24,
		Min: map[string]int{"procs": 0, "stat": 0, "hb": 0, "par": 0, "gap": 0, "codec": 0}, Steps: 60000000})
}

const c24Round = 16

func genC24(g *zzsim.Rng, p *Plan) {
	p.P["trans"] = g.Range(1, 3) // bit 0 TCP, bit 1 Unix
	p.P["hb"] = g.Intn(3)        // heartbeat interval, 0: none
	p.P["stat"] = g.Intn(3)      // collection interval, 0: none
	p.P["closelost"] = g.Intn(2)
	p.P["codec"] = []int{codecBytes, codecBytes, codecString, codecJSON, codecGOB}[g.Intn(5)]
	if g.Intn(3) == 0 {
		p.P["procs"] = g.Range(1, 1<<20)
	}
	p.P["par"] = g.Intn(2)
	p.P["gap"] = []int{0, 20, 3000, 200000}[g.Intn(4)]
	tame(g, p, 3000)
	// answers to collectors are written by the receiving goroutine: with both
	// directions full both sides would wait for each other, so leave room
	p.Net.Window = 65536
	// what comes and goes: mostly one thing again and again
	for i := []int{1, 1, 1, 2, 4}[g.Intn(5)]; i > 0; i-- {
		k := []string{"dial", "dial", "dial", "dial", "cli", "cli", "dead", "ep", "ep", "ref", "msg", "listener", "srv"}[g.Intn(13)]
		p.add(0, "it", k, g.Intn(8), g.Intn(4), g.Range(0, 3000))
	}
}

func runC24(h *H) {
	codec := h.p("codec")
	mk := func(node string) *Stk {
		s := h.newStk(node, 300).codec(codec)
		for _, x := range procsFrom(h.p("procs")) {
			if x != "heartbeat" && x != "session" && x != "stat" && x != "statoff" && x != "lboff" {
				s.add(mkProc(x))
			}
		}
		if k := h.p("stat"); k > 0 {
			s.add(ustack.NewStatCounter().SetOption("Collect.IntervalInSecond", k))
		}
		if k := h.p("hb"); k > 0 {
			s.add(ustack.NewHeartbeat().SetOption("IntervalInSecond", k).SetOption("TimeoutInSecond", 4).SetOption("CloseOnLost", h.p("closelost") == 1))
		}
		return s.add(ustack.NewSessionResolver()).add(ustack.NewFrameDecoder())
	}
	srv, cli, liv := mk("S"), mk("C"), mk("K")
	var addrs [][2]string
	var tps []ustack.Transport
	for k := 0; k < 2; k++ {
		if h.p("trans")&(1<<k) != 0 {
			tps = append(tps, newTransport(k == 1, true, fmt.Sprintf("t%d", k), addrFor(k == 1, 0)))
			addrs = append(addrs, [2]string{[]string{"tcp", "unix"}[k], addrFor(k == 1, 0)})
		}
	}
	unix0 := addrs[0][0] == "unix"
	got := 0
	mkEP := func(session int) ustack.EndPoint {
		return ustack.NewEndPoint(shared("ep", fmt.Sprintf("ep%d", session)), session).SetDataListener(func(ustack.EndPoint, ustack.EndPointData) { got++ })
	}
	sep := mkEP(0)
	cep := mkEP(0)
	kep := mkEP(0)
	ctp := newTransport(unix0, false, "t", addrs[0][1])
	h.Must("S", "build", func() {
		srv.U.AddEndPoint(sep)
		for _, t := range tps {
			srv.U.AddTransport(t)
		}
		srv.U.Run()
	})
	h.Must("C", "build", func() { cli.U.AddEndPoint(cep); cli.U.Run() })
	// a connection that stays
	h.Must("K", "build", func() {
		liv.U.AddEndPoint(kep).AddTransport(newTransport(unix0, false, "t", addrs[0][1])).Run()
	})
	if !h.Wait(20*sec, func() bool { return len(liv.Conns) == 1 && len(srv.Conns) == 1 }) {
		h.Fail("not-serving", "the stacks do not connect")
	}
	live := srv.Conns[0]
	var ref [2]*Stk
	for k := range ref {
		x := h.newStk(fmt.Sprintf("R%d", k), 0)
		ref[k] = x
		h.Must(x.Node, "build", func() { x.U.AddEndPoint(mkEP(0)); x.U.Run() })
	}
	var pairs []*snet.Pair
	h.Net.OnPair = func(p *snet.Pair) { pairs = append(pairs, p) }
	seq := 0
	msg := func(n int) interface{} {
		seq++
		return pack(codec, seq, fit(codec, 1, seq, n, srv.room()))
	}
	room := srv.room() - 20
	// one thing that comes and goes
	one := func(o Op, id int) {
		zzsim.Count("fault.churn", 1)
		pause := int64(o.C) * us
		a := addrs[id%len(addrs)]
		size := 14 + id*7%room
		switch o.K {
		case "dial":
			h.Call("D", "dial", 60*sec, func() {
				n := len(pairs)
				ns := len(srv.Conns)
				c, err := snet.Dial(a[0], a[1])
				if err != nil {
					return
				}
				var mine *snet.Pair
				for _, p := range pairs[n:] {
					if p.ClientNode == "D" && !p.ClosedBy(0) {
						mine = p
					}
				}
				switch o.A {
				case 1, 2:
					for i := 0; i < 3; i++ {
						c.Write([]byte{0, 0, 0, 12, 0, 0, 0, byte(i), 0, 0, 0, 0, 0, 0, byte(i), 'x'})
					}
				case 3:
					c.Write(payload(7, id, 40)) // garbage
				case 4:
					c.Write([]byte{0, 0, 0, 99, 0, 0, 0}) // half a message
				case 5:
					c.Write([]byte{0, 0})
				case 6:
					c.Write([]byte{0xff, 0xff, 0xff, 0xff, 1}) // a frame that is too long
				case 7:
					c.Write([]byte{0, 0, 0, 0, 0, 0, 0, 4, 0, 0, 9, 9}) // nobody's
				}
				h.Sleep(pause)
				switch o.B {
				case 1:
					if mine != nil {
						mine.Reset()
					}
				case 2:
					h.Wait(2*sec, func() bool { return len(srv.Conns) > ns })
					for _, x := range srv.Conns[ns:] {
						if x != live {
							x := x
							h.Go("S", "close", func() { x.Close() })
						}
					}
				case 3:
					if mine != nil && h.p("hb") > 0 && h.p("closelost") == 1 {
						zzsim.Count("fault.silent", 1)
						mine.Stall(0, zzsim.NowNano()+3600*sec)
						mine.Stall(1, zzsim.NowNano()+3600*sec)
						h.Sleep(8 * sec)
					}
				}
				c.Close()
			})
		case "cli":
			h.Call("C", "cli", 60*sec, func() {
				t := ctp
				if o.B > 0 {
					t = newTransport(unix0, false, "t", addrs[0][1])
				}
				n := len(cli.Conns)
				cli.U.AddTransport(t)
				h.Sleep(pause)
				if o.A > 1 {
					h.Wait(5*sec, func() bool { return len(cli.Conns) > n })
				}
				if o.A > 3 && len(cli.Conns) > n {
					for i := 0; i < o.A-2; i++ {
						send(cep, cli.Conns[n], msg(size))
					}
					h.Sleep(pause)
				}
				cli.U.DeleteTransport(t)
			})
		case "dead":
			h.Call("C", "dead", 60*sec, func() {
				t := newTransport(unix0, false, "dead", addrFor(unix0, 7)).SetOption("MaxRetryCount", 1+o.A%2)
				cli.U.AddTransport(t)
				h.Sleep(pause)
				if o.B > 1 {
					h.Sleep(5 * sec)
				}
				cli.U.DeleteTransport(t)
			})
		case "ep":
			h.Call("S", "ep", 60*sec, func() {
				e := mkEP(100 + id)
				if o.A > 5 {
					e.SetSession(99)
				}
				srv.U.AddEndPoint(e)
				if o.A%3 > 0 {
					send(e, live, msg(size))
				}
				if o.A%3 > 1 {
					k := len(liv.Conns) - 1
					sendTo(kep, liv.Conns[k], e.GetSession(), msg(size))
				}
				h.Sleep(pause)
				if o.B > 0 {
					srv.U.DeleteEndPoint(e)
					e.SetDataListener(nil)
				} else {
					e.SetDataListener(nil)
					srv.U.DeleteEndPoint(e)
				}
			})
		case "ref":
			addr := "ref"
			if o.A > 1 {
				addr = fmt.Sprintf("ref%d", id)
			}
			var t [2]ustack.Transport
			var done [2]bool
			for k := range ref {
				k := k
				t[k] = ustack.NewReferenceTransport("r").SetAddress(addr).ForServer(k == 0)
				h.Go(ref[k].Node, "ref", func() {
					n := len(ref[k].Conns)
					ref[k].U.AddTransport(t[k])
					h.Sleep(pause)
					if o.B > 1 && len(ref[k].Conns) > n {
						c := ref[k].Conns[n]
						h.Call(ref[k].Node, "send", sec, func() { send(ref[k].U.GetEndPoint()[0], c, msg(size)) })
						h.Sleep(pause)
					}
					ref[k].U.DeleteTransport(t[k])
					done[k] = true
				})
			}
			h.Wait(60*sec, func() bool { return done[0] && done[1] })
		case "msg":
			for i := 0; i < 16; i++ {
				h.Call("K", "send", 60*sec, func() {
					switch o.A % 4 {
					case 0:
						sendTo(kep, liv.Conns[0], 77, msg(size)) // nobody's
					case 1:
						send(sep, live, msg(size))
					default:
						send(kep, liv.Conns[0], msg(size))
					}
				})
			}
			h.Sleep(pause)
		case "listener":
			h.Call("S", "listener", 60*sec, func() {
				if o.A%2 == 0 {
					sep.SetDataListener(nil)
					h.Sleep(pause)
				}
				sep.SetDataListener(func(ustack.EndPoint, ustack.EndPointData) { got++ })
			})
		case "srv":
			h.Call("S", "srv", 60*sec, func() {
				n := 3
				if o.A > 3 {
					n = 3 + id
				}
				t := newTransport(unix0, true, "other", addrFor(unix0, n))
				srv.U.AddTransport(t)
				h.Go("D", "other", func() {
					if c, err := snet.Dial(a[0], addrFor(unix0, n)); err == nil && o.B > 0 {
						h.Sleep(pause)
						c.Close()
					}
				})
				h.Sleep(pause)
				srv.U.DeleteTransport(t)
			})
		}
	}
	its := h.ops("it")
	par := h.p("par") == 1
	for _, o := range its {
		if o.K == "ep" && o.A > 5 || o.K == "listener" || o.K == "cli" || o.K == "srv" || o.K == "ref" {
			par = false // one thing, not several
		}
		if o.K == "dial" && o.B == 2 {
			par = false
		}
	}
	id := 0
	var size [4]*retained
	round := func(r int) *retained {
		left := 0
		for i := 0; i < c24Round && len(its) > 0; i++ {
			o := its[i%len(its)]
			n := id
			id++
			if par {
				left++
				h.Go("main", "it", func() { one(o, n); left-- })
			} else {
				one(o, n)
			}
			h.Sleep(int64(h.p("gap")) * us)
		}
		if !h.Wait(300*sec, func() bool { return left == 0 }) {
			h.Fail("blocked", "what comes and goes does not come to an end: S %v", zzsim.TaskNames(h.Node("S")))
		}
		h.Sleep(15 * sec)
		for _, a := range addrs {
			a := a
			h.Call("D", "probe", 60*sec, func() {
				c, err := snet.Dial(a[0], a[1])
				if err != nil {
					return
				}
				h.Sleep(500 * ms)
				c.Close()
			})
		}
		h.Sleep(7*sec + 333*ms)
		x := retain(srv.U, cli.U, liv.U, ref[0].U, ref[1].U)
		zzsim.Logf("round %d: %d bytes, %d connections", r, x.bytes, x.conns)
		return x
	}
	for r := range size {
		size[r] = round(r)
	}
	h.Obs()
	const limit = 8 * c24Round
	if size[2].bytes-size[1].bytes >= limit && size[3].bytes-size[2].bytes >= limit {
		// a buffer of something alive that is filled up before it is used
		// again does not go on like this
		for r := 4; r < 28; r++ {
			if x := round(r); x.bytes-size[1].bytes < int64(r-1)*limit*3/4 {
				return
			}
		}
		var l []string
		for t, n := range size[3].by {
			if d := n - size[1].by[t]; d > 0 {
				l = append(l, fmt.Sprintf("%s +%d", t, d))
			}
		}
		sort.Strings(l)
		h.Fail("grows", "reachable from the stacks after %d, %d and %d of %v have gone: %d, %d and %d bytes (%v)", 2*c24Round, 3*c24Round, 4*c24Round, kinds(its), size[1].bytes, size[2].bytes, size[3].bytes, l)
	}
}

func kinds(its []Op) (l []string) {
	for _, o := range its {
		l = append(l, o.K)
	}
	return
}
