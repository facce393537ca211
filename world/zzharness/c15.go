package main

import (
	"fmt"

	"ustack"
	"ustack/zzsim"
)

// C15: data listeners see every message once, in order, across replacement.

func init() {
	register(&Scenario{ID: "C15", Gen: genC15, Run: runC15, Min: map[string]int{"mode": 0, "slow": 0, "churn": 0}})
}

func genC15(g *zzsim.Rng, p *Plan) {
	defer genLull(g, p)
	p.P["mode"] = g.Intn(3) / 2
	p.P["slow"] = g.Intn(3)
	p.P["churn"] = g.Intn(4) / 3 // delete and add the endpoint meanwhile
	span := []int{30, 300, 3000, 100000}[g.Intn(4)]
	n := g.Range(1, 4)
	for w := 0; w < n; w++ {
		for i := many(g, 1, 8, 20, 60); i > 0; i-- {
			switch g.Intn(7) {
			case 0, 1, 2, 3:
				p.add(int64(g.Intn(span)), fmt.Sprintf("W%d", w), "set", g.Intn(8), g.Intn(6))
			case 4, 5:
				p.add(int64(g.Intn(span)), fmt.Sprintf("W%d", w), "remove")
			case 6:
				p.add(int64(g.Intn(span)), fmt.Sprintf("W%d", w), "read", g.Intn(2*span))
			}
		}
	}
	for i := many(g, 1, 30, 30, 78); i > 0; i-- {
		p.add(int64(g.Intn(span)), "push", "push", g.Range(1, 6), g.Intn(6))
	}
	if p.P["churn"] == 1 && p.P["mode"] == 1 {
		for i := g.Range(1, 3); i > 0; i-- {
			p.add(int64(g.Intn(span)), "churn", "churn", g.Intn(span))
		}
	}
}

type c15set struct {
	n          int
	begin, ret int64 // scheduling steps; ret 0: not returned
	remove     bool
	calls      int
}

type c15msg struct {
	want  int
	seq   int
	begin int64
	got   int
}

func runC15(h *H) {
	var ep *EP
	ep = newEP("ep", 0, 0)
	step := zzsim.Steps
	var sets []*c15set
	var msgs []*c15msg
	busy := 0
	last := -1
	calls := 0
	closing, inReact := false, 0
	var install func(kind, react int)
	handle := func(s *c15set, react int, d ustack.EndPointData) {
		now := step()
		m, ok := d.GetData().(*c15msg)
		if !ok {
			h.Fail("wrong-message", "listener %d got %T", s.n, d.GetData())
			return
		}
		h.Obs()
		calls++
		s.calls++
		busy++
		if busy > 1 {
			h.Fail("concurrent-calls", "listener %d is called for message %d while another call is in progress", s.n, m.seq)
		}
		m.got++
		if m.got > m.want {
			h.Fail("duplicate", "message %d was handed over %d times", m.seq, m.got)
		}
		if m.seq < last {
			h.Fail("reordered", "message %d handed over after %d", m.seq, last)
		}
		last = m.seq
		for _, x := range sets {
			if x != s && s.ret != 0 && x.begin > s.ret && x.ret != 0 && x.ret < m.begin {
				what := "replaced"
				if x.remove {
					what = "removed"
				}
				h.Fail("stale-listener", "message %d was handed to listener %d although it had been %s before the message arrived (call at step %d)", m.seq, s.n, what, now)
			}
		}
		zzsim.Logf("listener %d message %d", s.n, m.seq)
		switch h.p("slow") {
		case 1:
			zzsim.S(-70)
		case 2:
			h.Sleep(40 * us)
		}
		// some listeners change the listener themselves
		if s.calls == 1 && !closing {
			inReact++
			switch react {
			case 1:
				install(-1, 0)
			case 2:
				install(0, 0)
			}
			inReact--
		}
		busy--
	}
	install = func(kind, react int) {
		s := &c15set{n: len(sets), begin: step()}
		sets = append(sets, s)
		if kind < 0 {
			s.remove = true
			zzsim.Logf("remove %d", s.n)
			zzsim.Count("fault.remove", 1)
			ep.EndPoint.SetDataListener(nil)
		} else {
			zzsim.Logf("set %d", s.n)
			zzsim.Count("fault.replace", 1)
			ep.EndPoint.SetDataListener(func(_ ustack.EndPoint, d ustack.EndPointData) { handle(s, react, d) })
		}
		s.ret = step()
		zzsim.S(-71)
	}
	push := func(m *c15msg) {
		zzsim.To(ep.GetRxChannel()).Send(-100, ustack.NewEndPointData().SetData(m))
	}
	// again hands the very same over twice
	again := func(m *c15msg) {
		d := ustack.NewEndPointData().SetData(m)
		zzsim.To(ep.GetRxChannel()).Send(-100, d)
		zzsim.To(ep.GetRxChannel()).Send(-100, d)
	}
	var stk *Stk
	if h.p("mode") == 1 {
		a, b := h.newStk("A", 200), h.newStk("B", 200)
		stk = b
		var conn ustack.TransportConnection
		a.OnEv = func(e Ev) {
			if e.Type == ustack.UStackEventNewConnection {
				conn = e.Conn
			}
		}
		sender := newEP("s", 0, 0)
		h.Must("B", "build", func() {
			b.U.AddEndPoint(ep).AddTransport(ustack.NewReferenceTransport("t").ForServer(true).SetAddress("x")).Run()
		})
		h.Must("A", "build", func() {
			a.U.AddEndPoint(sender).AddTransport(ustack.NewReferenceTransport("t").ForServer(false).SetAddress("x")).Run()
		})
		if !h.Wait(10*sec, func() bool { return conn != nil && len(b.Conns) > 0 }) {
			h.Fail("sim-stuck", "no connection")
		}
		push = func(m *c15msg) { send(sender, conn, m) }
		again = func(m *c15msg) { push(m); push(m) }
	}
	start := zzsim.NowNano()
	var dones []*bool
	for w := 0; w < 4; w++ {
		w := w
		dones = append(dones, h.actor("B", fmt.Sprintf("W%d", w), start, func(o Op) {
			switch o.K {
			case "set":
				install(o.A, o.B)
			case "remove":
				install(-1, 0)
			case "read":
				// a reader of the receive channel, for a while
				rl := -1
				end := zzsim.NowNano() + int64(o.A)*us
				for zzsim.NowNano() < end {
					if d, ok := zzsim.TryRecv((<-chan ustack.EndPointData)(ep.GetRxChannel())); ok {
						m := d.GetData().(*c15msg)
						m.got++
						if m.got > m.want {
							h.Fail("duplicate", "message %d was handed over %d times", m.seq, m.got)
						}
						if m.seq < rl {
							h.Fail("reordered", "message %d read after %d", m.seq, rl)
						}
						rl = m.seq
					} else {
						h.Sleep(7 * us)
					}
				}
			}
		}))
	}
	dones = append(dones, h.actor("A", "push", start, func(o Op) {
		for i := 0; i < o.A; i++ {
			m := &c15msg{seq: len(msgs), begin: step(), want: 1}
			msgs = append(msgs, m)
			if o.B > 0 && i%3 == o.B-1 { // the same again
				m.want++
				again(m)
				continue
			}
			push(m)
		}
	}))
	churned := false
	dones = append(dones, h.actor("B", "churn", start, func(o Op) {
		if stk == nil {
			return
		}
		churned = true
		zzsim.Count("fault.detach", 1)
		stk.U.DeleteEndPoint(ep)
		h.Sleep(int64(o.A) * us)
		stk.U.AddEndPoint(ep)
	}))
	if !h.Wait(60*sec, func() bool {
		for _, d := range dones {
			if !*d {
				return false
			}
		}
		return true
	}) {
		h.Fail("blocked", "setting a listener did not return: %v", zzsim.TaskNames(h.Node("B")))
	}
	closing = true
	if !h.Wait(20*sec, func() bool { return inReact == 0 }) {
		h.Fail("blocked", "setting a listener from a listener did not return: %v", zzsim.TaskNames(h.Node("B")))
	}
	// one that was set after every removal is still there
	sure := false
	for _, s := range sets {
		ok := !s.remove && s.ret != 0
		for _, x := range sets {
			ok = ok && (!x.remove || x.ret != 0 && x.ret < s.begin)
		}
		sure = sure || ok
	}
	if !sure {
		h.Must("B", "set", func() { install(0, 0) })
	}
	missing := func() *c15msg {
		for _, m := range msgs {
			if m.got < m.want {
				return m
			}
		}
		return nil
	}
	if !churned { // a detached endpoint gets nothing
		if !h.Wait(20*sec, func() bool { return missing() == nil }) {
			h.Fail("lost-message", "message %d was never handed to a listener or reader", missing().seq)
		}
	}
	h.Sleep(20*ms + int64(h.p("lull"))*sec)
	// still one at a time and to the last one
	m := &c15msg{seq: len(msgs), begin: step(), want: 1}
	msgs = append(msgs, m)
	h.Must("A", "push", func() { push(m) })
	if !h.Wait(20*sec, func() bool { return m.got > 0 }) {
		h.Fail("lost-message", "the last listener does not get messages")
	}
	// after a removal the messages stay in the channel
	h.Must("B", "remove", func() { install(-1, 0) })
	for i := 0; i < 3; i++ {
		m := &c15msg{seq: len(msgs), begin: step(), want: 1}
		msgs = append(msgs, m)
		h.Must("A", "push", func() { push(m) })
	}
	if !h.Wait(20*sec, func() bool { return len(ep.GetRxChannel()) == 3 }) {
		h.Fail("not-kept", "messages that arrived without a listener are not kept: %d of 3", len(ep.GetRxChannel()))
	}
	h.Sleep(20 * ms)
	h.Must("B", "set", func() { install(0, 0) })
	if !h.Wait(20*sec, func() bool { return missing() == nil || churned && msgs[len(msgs)-1].got > 0 }) {
		h.Fail("lost-message", "message %d that arrived without a listener was not handed over", missing().seq)
	}
}
