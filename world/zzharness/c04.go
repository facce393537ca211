package main

import (
	"fmt"

	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// C04: endpoints attach, detach and re-attach safely at any time.

func init() {
	register(&Scenario{ID: "C04", Gen: genC04, Run: runC04,
		Min: map[string]int{"codec": 0, "unix": 0, "small": 0, "heartbeat": 0}})
}

func genC04(g *zzsim.Rng, p *Plan) {
	defer genLull(g, p)
	p.P["mtu"] = 300
	p.P["unix"] = g.Intn(2) & g.Intn(2)
	p.P["small"] = []int{1, 2, 3, 8}[g.Intn(4)]
	p.P["codec"] = g.Intn(2)
	p.P["server"] = g.Intn(2) // the stack under churn is the server
	p.P["heartbeat"] = g.Intn(2) & g.Intn(2)
	churn := g.Range(1, 2)
	if g.Intn(12) == 0 {
		churn = g.Range(3, 9)
	}
	p.P["churn"] = churn
	p.P["rename"] = g.Intn(4) / 3 // endpoints come back with another session
	span := []int64{3000, 200000, 3000000}[g.Intn(3)]
	for c := 1; c <= churn; c++ {
		attached := g.Intn(3) > 0
		p.P[fmt.Sprintf("in%d", c)] = b2i(attached)
		at := int64(0)
		drain := true
		for i := many(g, 1, 6, 20, 40); i > 0; i-- {
			switch g.Intn(4) {
			case 0:
				at += int64(g.Intn(40)) // at once
			case 1:
				at += int64(g.Intn(int(span)/6 + 1))
			default:
				at += int64(g.Intn(int(span)/3 + 1))
			}
			if g.Intn(3) == 0 {
				at += 1500000
			}
			if attached {
				if drain && g.Intn(3) == 0 {
					p.add(at, fmt.Sprintf("churn%d", c), "nodrain", c)
					drain = false
					at += int64(g.Intn(int(span)/3 + 1))
				}
				p.add(at, fmt.Sprintf("churn%d", c), "del", c, g.Intn(3))
			} else {
				drain = true
				p.add(at, fmt.Sprintf("churn%d", c), "add", c, g.Intn(6))
			}
			attached = !attached
		}
	}
	if g.Intn(4) == 0 {
		// a second goroutine adds and deletes the same endpoint
		p.P["overlap"] = 1
		var times []int64
		for _, o := range p.Ops {
			if o.K == "add" || o.K == "del" {
				times = append(times, o.At)
			}
		}
		for i := g.Range(1, 8); i > 0; i-- {
			t := times[g.Intn(len(times))] + []int64{0, 0, 1, 20}[g.Intn(4)]
			p.add(t, "overlap", []string{"add", "del"}[g.Intn(2)], g.Range(1, churn), g.Intn(3))
		}
	}
	end := span
	for _, o := range p.Ops {
		if o.At > end {
			end = o.At
		}
	}
	if g.Intn(4) == 0 {
		// somebody adds another endpoint for a session that is in use
		t := int64(g.Intn(int(end)))
		p.add(t, "dup", "add")
		if g.Intn(2) == 0 {
			p.add(t+int64(g.Intn(int(end))), "dup", "del")
		}
	}
	end += end / 4
	for c := 0; c <= churn; c++ {
		for i := g.Range(1, 9); i > 0; i-- {
			p.add(int64(g.Intn(int(end))), fmt.Sprintf("X%d", c), "send", g.Range(14, 200))
		}
		for i := g.Range(1, 9); i > 0; i-- {
			p.add(int64(g.Intn(int(end))), fmt.Sprintf("Y%d", c), "send", g.Range(14, 200))
		}
	}
	for i := g.Intn(2); i > 0; i-- {
		p.add(int64(g.Intn(int(end))), "net", "stall", g.Intn(2), g.Range(1, 2000))
	}
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// phase of an endpoint: when it was attached and detached.
type attach struct {
	addCall, addRet int64 // 0: from the start
	delCall, delRet int64 // -1: still attached
}

func runC04(h *H) {
	unix := h.p("unix") == 1
	codec := h.p("codec")
	procs := []string{"session"}
	if h.p("heartbeat") == 1 {
		procs = append(procs, "heartbeat")
	}
	const grace = sec
	// X is the stack under churn, Y its peer with endpoints for all sessions
	l := newLedger(h, codec)
	var x, y *Stk
	var xc, yc ustack.TransportConnection
	var pair *snet.Pair
	h.Net.OnPair = func(p *snet.Pair) {
		if pair == nil {
			pair = p
		}
	}
	n := h.p("churn")
	xe := make([]*EP, n+1)
	ye := make([]*EP, n+1)
	hist := make([][]*attach, n+1)
	drain := make([]bool, n+1)
	cur := func(c int) *attach {
		if len(hist[c]) == 0 {
			return nil
		}
		return hist[c][len(hist[c])-1]
	}
	// detached tells whether the endpoint has certainly been detached from t
	// until now without a new addition having begun
	detached := func(c int, t int64) bool {
		a := cur(c)
		if a == nil {
			return true
		}
		return a.delRet >= 0 && t > a.delRet+grace
	}
	gen := make([]int, n+1)
	// the session of each endpoint, and since when
	rename := h.p("rename") == 1
	sess, since := make([]int, n+1), make([]int64, n+1)
	for c := range sess {
		sess[c] = c
	}
	reader := func(c int) {
		g, e := gen[c], xe[c]
		h.Go("X", fmt.Sprintf("reader-x%d", c), func() {
			for {
				for !drain[c] {
					h.Sleep(20 * ms)
				}
				d, _ := zzsim.Recv2(-100, (<-chan ustack.EndPointData)(e.GetRxChannel()))
				if g != gen[c] {
					// replaced by another endpoint: what it still holds is old
					m := l.find(fmt.Sprintf("X/%d", c), d.GetData())
					if a := hist[c]; m != nil && len(a) > 0 && m.at > a[len(a)-1].addRet && a[len(a)-1].addRet > 0 {
						h.Fail("delivered-while-detached", "endpoint %d: message %d.%d was delivered to the endpoint that had been replaced", c, m.tag, m.seq)
					}
					continue
				}
				m := l.arrive(fmt.Sprintf("X/%d", c), d.GetData(), func(m *lmsg) bool { return m.lane == lane("Y", c) })
				if m != nil && detached(c, m.at) {
					h.Fail("delivered-while-detached", "endpoint %d: message %d.%d, sent %d ms after the deletion had returned, was delivered to it", c, m.tag, m.seq, (m.at-delRetOf(cur(c)))/ms)
				}
			}
		})
	}
	mkx := func() {
		x = h.newStk("X", h.p("mtu")).framed(codec, procs, 0)
		x.OnEv = func(e Ev) {
			if e.Type == ustack.UStackEventNewConnection && xc == nil {
				xc = e.Conn
			}
		}
		h.Must("X", "build", func() {
			for c := 0; c <= n; c++ {
				c := c
				xe[c] = newEP(fmt.Sprintf("x%d", c), c, h.p("small"))
				drain[c] = true
				reader(c)
				if c == 0 || h.p(fmt.Sprintf("in%d", c)) == 1 {
					x.U.AddEndPoint(xe[c])
					hist[c] = append(hist[c], &attach{delCall: -1, delRet: -1})
				}
			}
			x.U.AddTransport(newTransport(unix, h.p("server") == 1, "t", addrFor(unix, 0)))
			x.U.Run()
		})
	}
	mky := func() {
		y = h.newStk("Y", h.p("mtu")).framed(codec, procs, 0)
		y.OnEv = func(e Ev) {
			if e.Type == ustack.UStackEventNewConnection && yc == nil {
				yc = e.Conn
			}
		}
		h.Must("Y", "build", func() {
			for k := 0; k < (n+1)*(1+b2i(rename)); k++ {
				c, session := k%(n+1), k%(n+1)+k/(n+1)*100
				e := newEP(fmt.Sprintf("y%d", session), session, 0)
				if k == c {
					ye[c] = e
				}
				h.recvLoop("Y", e, true, func(d ustack.EndPointData) {
					m := l.arrive(fmt.Sprintf("Y/%d", session), d.GetData(), func(m *lmsg) bool { return m.tag == c*10+1 })
					if m != nil && session != sess[c] && m.at > since[c] {
						h.Fail("wrong-session", "endpoint %d came back with session %d, but its message %d.%d went to session %d", c, sess[c], m.tag, m.seq, session)
					}
					if m != nil && detached(c, m.at) {
						h.Fail("sent-while-detached", "endpoint %d: message %d.%d, queued %d ms after the deletion had returned, was transmitted", c, m.tag, m.seq, (m.at-delRetOf(cur(c)))/ms)
					}
				})
				y.U.AddEndPoint(e)
			}
			y.U.AddTransport(newTransport(unix, h.p("server") == 0, "t", addrFor(unix, 0)))
			y.U.Run()
		})
	}
	mkx()
	mky()
	if !h.Wait(20*sec, func() bool { return xc != nil && yc != nil }) {
		h.Fail("no-connection", "no connection within 20 s")
	}
	start := zzsim.NowNano()
	room := x.room()
	// once the last change is over, everything sent to or from an attached
	// endpoint has to arrive
	var done []*bool
	seq := 0
	for c := 0; c <= n; c++ {
		c := c
		mk := func(from string, e *EP, k *ustack.TransportConnection) {
			done = append(done, h.actor(from, fmt.Sprintf("%s%d", from, c), start, func(o Op) {
				seq++
				ln := lane(from, c)
				if from == "X" {
					e = xe[c]
					ln = lane(from, fmt.Sprintf("%d.%d", c, gen[c]))
					if rename { // two sessions of the peer: no order between them
						ln = lane(from, fmt.Sprintf("%d:%d", c, seq))
					}
				}
				m, b := l.make(ln, c*10+b2i(from == "X"), seq, o.A, room)
				m.must = c == 0
				if from == "X" && c > 0 {
					// the queue of a detached endpoint is not drained: do not wait for it
					if len(e.GetTxChannel()) == cap(e.GetTxChannel()) {
						m.lane = "unsent"
						m.at = -1
						return
					}
				}
				if from == "Y" && rename {
					sendTo(e, *k, sess[c], b)
					return
				}
				send(e, *k, b)
			}))
		}
		mk("X", xe[c], &xc)
		mk("Y", ye[c], &yc)
	}
	overlap := h.p("overlap") == 1
	if overlap {
		// attached or not is known only at the end
		for c := 1; c <= n; c++ {
			hist[c] = []*attach{{delCall: -1, delRet: -1}}
		}
	}
	change := func(o Op) {
		c := o.A
		if overlap {
			switch o.K {
			case "nodrain":
				drain[c] = false
			case "add":
				drain[c] = true
				x.U.AddEndPoint(xe[c])
				if o.B == 4 {
					x.U.AddEndPoint(xe[c])
				}
			case "del":
				x.U.DeleteEndPoint(xe[c])
			}
			return
		}
		switch o.K {
		case "nodrain":
			drain[c] = false
		case "add":
			a := &attach{addCall: zzsim.NowNano(), delCall: -1, delRet: -1}
			drain[c] = true
			if o.B == 3 {
				// another endpoint takes the session over
				gen[c]++
				xe[c] = newEP(fmt.Sprintf("x%d.%d", c, gen[c]), sess[c], h.p("small"))
				reader(c)
			} else if rename {
				sess[c] = c + 100 - (sess[c] - c)
				xe[c].SetSession(sess[c])
				since[c] = 1 << 60
			}
			hist[c] = append(hist[c], a)
			x.U.AddEndPoint(xe[c])
			if o.B >= 4 { // once more, which changes nothing
				x.U.AddEndPoint(xe[c])
			}
			a.addRet = zzsim.NowNano()
			since[c] = a.addRet
		case "del":
			a := cur(c)
			a.delCall = zzsim.NowNano()
			x.U.DeleteEndPoint(xe[c])
			a.delRet = zzsim.NowNano()
			drain[c] = drain[c] || o.B == 1
		}
	}
	cd := []*bool{h.actor("X", "overlap", start, change)}
	for c := 1; c <= n; c++ {
		cd = append(cd, h.actor("X", fmt.Sprintf("churn%d", c), start, change))
	}
	var dup *EP
	cd = append(cd, h.actor("X", "dup", start, func(o Op) {
		if o.K == "add" {
			dup = newEP("dup", 0, h.p("small"))
			x.U.AddEndPoint(dup)
		} else {
			x.U.DeleteEndPoint(dup)
		}
	}))
	quiet := start
	netDone := h.actor("main", "net", start, func(o Op) {
		if pair != nil {
			pair.Stall(o.A, zzsim.NowNano()+int64(o.B)*ms)
			if e := zzsim.NowNano() + int64(o.B)*ms; e > quiet {
				quiet = e
			}
		}
	})
	cd = append(cd, netDone)
	if !h.Wait(120*sec, func() bool {
		for _, d := range cd {
			if !*d {
				return false
			}
		}
		return true
	}) {
		h.Fail("blocked", "adding or deleting an endpoint did not return within 120 s")
	}
	if overlap {
		// whatever the order was, what is registered now is attached
		h.Must("X", "registered", func() {
			in := map[ustack.EndPoint]bool{}
			for _, e := range x.U.GetEndPoint() {
				in[e] = true
			}
			for c := 1; c <= n; c++ {
				now := zzsim.NowNano()
				drain[c] = true
				hist[c][0].addRet = now
				if !in[xe[c]] {
					hist[c][0].delRet = now
				}
			}
		})
	}
	ok := h.Wait(600*sec, func() bool {
		for _, d := range done {
			if !*d {
				return false
			}
		}
		return true
	})
	if !ok {
		h.Fail("send-blocked", "a sender blocked for 600 s")
	}
	if d := quiet - zzsim.NowNano(); d > 0 {
		h.Sleep(d)
	}
	// what was queued after the final addition had returned has to arrive
	for c := 1; c <= n; c++ {
		a := cur(c)
		if a == nil || a.delRet >= 0 {
			continue
		}
		for _, m := range l.order {
			if (m.tag == c*10+1 || m.tag == c*10) && m.at > a.addRet {
				m.must = true
			}
		}
	}
	l.settle(40*sec, "although every change is over")
	// final probe in both directions for everything attached, and silence for the rest
	h.Sleep(2 * grace)
	for c := 0; c <= n; c++ {
		c := c
		at := cur(c) != nil && cur(c).delRet < 0
		h.Go("X", "probe", func() {
			for k := 0; k < 2 && len(xe[c].GetTxChannel()) < cap(xe[c].GetTxChannel()); k++ {
				seq++
				ln := lane("X", fmt.Sprintf("%d.%d", c, gen[c]))
				if rename {
					ln = lane("X", fmt.Sprintf("%d:%d", c, seq))
				}
				m, b := l.make(ln, c*10+1, seq, 20, room)
				m.must = at
				send(xe[c], xc, b)
			}
		})
		h.Go("Y", "probe", func() {
			for k := 0; k < 2; k++ {
				seq++
				m, b := l.make(lane("Y", c), c*10, seq, 20, room)
				m.must = at
				sendTo(ye[c], yc, sess[c], b)
			}
		})
	}
	h.Sleep(5 * sec)
	l.settle(40*sec, "although every change is over")
	h.Sleep(2 * sec)
}

func delRetOf(a *attach) int64 {
	if a == nil {
		return 0
	}
	return a.delRet
}
