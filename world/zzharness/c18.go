package main

import (
	"bytes"
	"fmt"
	"strconv"

	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// C18: echo, filter, forward, discard and loop back each message exactly once.

func init() {
	register(&Scenario{ID: "C18", Gen: genC18, Run: runC18,
		Min: map[string]int{"codec": 0, "procs": 0, "unix": 0, "small": 0, "pos": 0, "top": 0, "ref": 0}})
}

const (
	mEcho = iota
	mFilter
	mForward
	mDiscard
	mLoop
)

func genC18(g *zzsim.Rng, p *Plan) {
	defer genLull(g, p)
	p.P["mode"] = []int{mEcho, mEcho, mFilter, mFilter, mForward, mForward, mDiscard, mLoop}[g.Intn(8)]
	p.P["mtu"] = []int{100, 300, 300, 2048}[g.Intn(4)]
	p.P["codec"] = []int{codecBytes, codecString}[g.Intn(2)]
	p.P["top"] = g.Intn(4) / 3
	if p.P["top"] == 1 || p.P["mode"] == mEcho || p.P["mode"] == mLoop || p.P["mode"] == mDiscard {
		p.P["codec"] = g.Intn(codecCount)
	}
	if p.P["mode"] == mEcho {
		p.P["top"] = 0 // there is no buffer above the codec
	}
	if p.P["codec"] >= codecJSON && p.P["mtu"] < 300 {
		p.P["mtu"] = 300
	}
	if g.Intn(3) > 0 {
		p.P["procs"] = g.Range(1, 1<<20)
	}
	p.P["pos"] = g.Intn(6)
	p.P["fns"] = []int{0, 1, 2, 3, 1, 2, 3, 6}[g.Intn(8)]
	p.P["rule"] = g.Intn(1 << 20)
	p.P["unix"] = g.Intn(3) / 2
	p.P["small"] = []int{0, 0, 1, 3}[g.Intn(4)]
	p.P["clients"] = g.Range(1, 3)
	p.P["eps"] = g.Range(1, 3)
	p.P["on"] = 1
	tame(g, p, p.P["mtu"]*2)
	span := []int{1000, 100000, 2000000}[g.Intn(3)]
	nsw := []int{0, 1, 2, 4}[g.Intn(4)]
	if p.P["mode"] == mLoop {
		nsw = 0
	}
	if nsw > 0 {
		p.P["on"] = g.Intn(2)
	}
	if p.P["mode"] == mEcho && nsw == 0 && g.Intn(3) == 0 {
		p.P["below"] = 1 // echoes the bytes, not the messages
	}
	for i := nsw; i > 0; i-- {
		p.add(int64(g.Intn(span)), "switch", "set", g.Intn(2))
	}
	count := g.Range(3, 30)
	if genRush(g, p, 40) {
		count = g.Range(100, 900)
	}
	for i := count; i > 0; i-- {
		if p.P["mode"] == mLoop {
			p.add(int64(g.Intn(span)), fmt.Sprintf("L%d", g.Intn(p.P["eps"])), "send", genSizes(g, p.P["mtu"]), g.Intn(p.P["eps"]+1)-1, g.Intn(3))
			continue
		}
		c := g.Intn(p.P["clients"])
		if g.Intn(4) > 0 {
			p.add(int64(g.Intn(span)), fmt.Sprintf("C%d", c), "send", genSizes(g, p.P["mtu"]))
		} else if p.P["below"] == 0 {
			p.add(int64(g.Intn(span)), "S", "send", genSizes(g, p.P["mtu"]), c)
		}
	}
	for i := g.Intn(3); i > 0; i-- {
		p.add(int64(g.Intn(span)), "net", "stall", g.Intn(3), g.Range(1, 2000), g.Intn(2))
	}
	if g.Intn(5) == 0 {
		p.add(int64(g.Intn(span)), "net", "pause", g.Intn(3), g.Range(1, 2000))
	}
	if g.Intn(5) == 0 && p.P["clients"] > 1 {
		p.add(int64(g.Intn(span)), "net", "reset", 0)
	}
	if p.P["below"] == 0 && p.P["clients"] == 1 && g.Intn(2) == 0 {
		p.P["ref"] = 1
	}
}

// marker finds the tag and number of a message in whatever a context holds.
func marker(c ustack.Context, codec int) (tag, seq int, ok bool) {
	var b []byte
	if m := c.GetMessage(); m != nil {
		b, _ = unpack(codec, m)
	} else if ub := c.GetBuffer(); ub != nil {
		b = content(ub)
	}
	for i := 0; i < len(b) && i < 16; i++ {
		if b[i] < '0' || b[i] > '9' {
			continue
		}
		d := bytes.IndexByte(b[i:], '.')
		e := bytes.IndexByte(b[i:], '/')
		if d <= 0 || e < d {
			return 0, 0, false
		}
		t, e1 := strconv.Atoi(string(b[i : i+d]))
		s, e2 := strconv.Atoi(string(b[i+d+1 : i+e]))
		return t, s, e1 == nil && e2 == nil
	}
	return 0, 0, false
}

type c18msg struct {
	*lmsg
	conn    int
	down    bool
	outcome string // delivered, echoed, taken
	at      int64
	calls   []int
	fails   bool
}

func runC18(h *H) {
	mode := h.p("mode")
	if mode == mLoop {
		runC18Loop(h)
		return
	}
	codec := h.p("codec")
	unix := h.p("unix") == 1
	procs := procsFrom(h.p("procs"))
	session := 0
	if has(procs, "session") {
		session = 5
	}
	if h.p("ref") == 1 { // no codec and no sessions on objects
		var keep []string
		for _, x := range procs {
			if x != "session" {
				keep = append(keep, x)
			}
		}
		procs, session = keep, 0
	}
	l := newLedger(h, codec)
	l.loose = true
	// objects handed over by reference pass the same processors
	ref := h.p("ref") == 1
	newT := func(server bool) ustack.Transport {
		if ref {
			return ustack.NewReferenceTransport("r").SetAddress("ref").ForServer(server)
		}
		return newTransport(unix, server, "t", addrFor(unix, 0))
	}
	byMsg := map[*lmsg]*c18msg{}
	var all []*c18msg
	// what the functions decide
	accepts := func(fn, tag, seq int, up bool) bool {
		x := uint32(h.p("rule")*31+fn*7+tag*131+seq) * 2654435761
		if up {
			x ^= x >> 7
		}
		return x>>20%3 == 0
	}
	fns := h.p("fns")
	taker := func(m *c18msg) int {
		for i := 0; i < fns; i++ {
			if accepts(i, m.tag, m.seq, !m.down) {
				return i
			}
		}
		return -1
	}
	// history of the switch
	type change struct {
		from, to int64 // the call
		on       bool
	}
	on := h.p("on") == 1
	hist := []change{{-1, -1, on}}
	// states possible within a window
	states := func(a, b int64) (canOn, canOff bool) {
		for i, c := range hist {
			if c.from > b {
				break
			}
			// replaced for sure before a?
			if i+1 < len(hist) && hist[i+1].to >= 0 && hist[i+1].to < a && hist[i+1].from < a {
				continue
			}
			if c.on {
				canOn = true
			} else {
				canOff = true
			}
		}
		return
	}
	expect := func(m *c18msg, on bool) string {
		if !on {
			return "delivered"
		}
		switch mode {
		case mEcho:
			if !m.down {
				return "echoed"
			}
		case mDiscard:
			if !m.down {
				return ""
			}
		case mFilter:
			if taker(m) < 0 {
				return ""
			}
		case mForward:
			if taker(m) >= 0 {
				return "taken"
			}
		}
		return "delivered"
	}
	names := []string{"echo", "filter", "forwarder", "discarder"}
	judge := func(m *c18msg, outcome string, until int64) {
		canOn, canOff := states(m.lmsg.at, until)
		if canOn && expect(m, true) == outcome || canOff && expect(m, false) == outcome {
			return
		}
		dir := "incoming"
		if m.down {
			dir = "outgoing"
		}
		if outcome == "" {
			h.Fail("lost-message", "%s message %d.%d vanished in the %s (enabled possible: %v, disabled possible: %v, taker %d)", dir, m.tag, m.seq, names[mode], canOn, canOff, taker(m))
		} else {
			h.Fail("wrong-outcome", "%s message %d.%d was %s by a stack with %s (enabled possible: %v, disabled possible: %v, taker %d)", dir, m.tag, m.seq, outcome, names[mode], canOn, canOff, taker(m))
		}
	}
	last := map[string]int{}
	settleMsg := func(m *c18msg, outcome string) {
		h.Obs()
		zzsim.Logf("outcome %d.%d %s", m.tag, m.seq, outcome)
		if m.outcome != "" {
			h.Fail("duplicate", "message %d.%d was %s and also %s", m.tag, m.seq, m.outcome, outcome)
		}
		m.outcome = outcome
		m.at = zzsim.NowNano()
		k := fmt.Sprint(m.conn, m.down, outcome)
		if p, ok := last[k]; ok && p > m.seq {
			h.Fail("reordered", "message %d of %s was %s after %d", m.seq, m.lane, outcome, p)
		}
		last[k] = m.seq
		judge(m, outcome, m.at)
	}
	type heldMsg struct {
		c        ustack.Context
		tag, seq int
	}
	var held []heldMsg
	inFn := func(j int) func(ustack.Context, bool) bool {
		return func(c ustack.Context, up bool) bool {
			t, s, ok := marker(c, codec)
			zzsim.Logf("fn %d up=%v ok=%v %d.%d -> %v", j, up, ok, t, s, accepts(j, t, s, up))
			if !ok {
				return mode == mFilter // heartbeats and the like
			}
			lm := l.msgs[[2]int{t, s}]
			if lm == nil {
				h.Fail("unexpected-message", "function %d was given message %d.%d that nobody sent", j, t, s)
				return false
			}
			m := byMsg[lm]
			if m.down == up {
				h.Fail("wrong-direction", "function %d was told the wrong direction of message %d.%d", j, t, s)
			}
			a := accepts(j, t, s, up)
			if mode == mForward {
				if len(m.calls) != j {
					h.Fail("wrong-function", "function %d was asked about message %d.%d after functions %v", j, t, s, m.calls)
				}
				m.calls = append(m.calls, j)
				if a {
					settleMsg(m, "taken")
					// whoever takes a message owns it
					held = append(held, heldMsg{c, t, s})
				}
			}
			return a
		}
	}
	var px ustack.DataProcessor
	switch mode {
	case mEcho:
		px = ustack.NewEcho()
	case mDiscard:
		px = ustack.NewDiscarder()
	case mFilter:
		var f []ustack.FilterFn
		for i := 0; i < fns; i++ {
			f = append(f, inFn(i))
		}
		px = ustack.NewFilter(f...)
	case mForward:
		var f []ustack.ForwardFn
		for i := 0; i < fns; i++ {
			f = append(f, inFn(i))
		}
		px = ustack.NewForwarder(f...)
	}
	if h.p("below") == 1 && has(procs, "heartbeat") {
		return // its heartbeats would be written into the echoed bytes
	}
	px.SetEnable(on)
	srv := h.newStk("S", h.p("mtu"))
	if h.p("top") == 1 {
		srv.add(px)
	}
	if !ref {
		srv.codec(codec)
	}
	pos := h.p("pos") % (len(procs) + 1)
	for i := 0; i <= len(procs); i++ {
		if i == pos && h.p("top") == 0 && h.p("below") == 0 {
			srv.add(px)
		}
		if i < len(procs) {
			srv.add(mkProc(procs[i]))
		}
	}
	srv.add(ustack.NewFrameDecoder())
	if h.p("below") == 1 {
		srv.add(px)
	}
	nc := h.p("clients")
	type client struct {
		stk         *Stk
		ep          *EP
		conn, sconn ustack.TransportConnection
		pair        *snet.Pair
		fails       bool
	}
	cl := make([]*client, nc)
	known := map[ustack.TransportConnection]int{}
	for i := range cl {
		cl[i] = &client{}
	}
	for _, o := range h.ops("net") {
		if o.K == "reset" {
			cl[0].fails = true
		}
	}
	h.Net.OnPair = func(p *snet.Pair) {
		for i := 0; i < nc; i++ {
			if p.ClientNode == fmt.Sprintf("C%d", i) && cl[i].pair == nil {
				cl[i].pair = p
			}
		}
	}
	var sep *EP
	h.Must("S", "build", func() {
		sep = newEP("ep", session, h.p("small"))
		h.recvLoop("S", sep, true, func(d ustack.EndPointData) {
			lm := l.find("S", d.GetData())
			if lm == nil {
				return
			}
			m := byMsg[lm]
			if k, ok := known[d.GetConnection()]; !ok || k != m.conn || m.down {
				h.Fail("misrouted", "S: got message %d.%d of %s on connection %d", m.tag, m.seq, m.lane, k)
			}
			settleMsg(m, "delivered")
		})
		srv.U.AddEndPoint(sep)
		srv.U.AddTransport(newT(true))
		srv.U.Run()
	})
	for i, c := range cl {
		i, c := i, c
		name := fmt.Sprintf("C%d", i)
		c.stk = h.newStk(name, h.p("mtu"))
		if ref {
			for _, x := range procs {
				c.stk.add(mkProc(x))
			}
		} else {
			c.stk.framed(codec, procs, 0)
		}
		c.stk.OnEv = func(e Ev) {
			if e.Type == ustack.UStackEventNewConnection && c.conn == nil {
				c.conn = e.Conn
			}
		}
		h.Must(name, "build", func() {
			c.ep = newEP("ep", session, 0)
			h.recvLoop(name, c.ep, true, func(d ustack.EndPointData) {
				lm := l.find(name, d.GetData())
				if lm == nil {
					return
				}
				m := byMsg[lm]
				if m.conn != i {
					h.Fail("misrouted", "%s: got message %d.%d of %s", name, m.tag, m.seq, m.lane)
				}
				if m.down {
					settleMsg(m, "delivered")
				} else {
					settleMsg(m, "echoed")
				}
			})
			c.stk.U.AddEndPoint(c.ep)
			c.stk.U.AddTransport(newT(false))
			c.stk.U.Run()
		})
		if !h.Wait(20*sec, func() bool { return c.conn != nil && len(srv.Conns) > i }) {
			h.Fail("no-connection", "no connection within 20 s")
		}
		c.sconn = srv.Conns[i]
		known[c.sconn] = i
	}
	room := srv.room()
	seq := 0
	sendOn := func(i int, down bool, size int) *c18msg {
		c := cl[i]
		tag := i
		ln := fmt.Sprintf("C%d>S", i)
		if down {
			tag = 10 + i
			ln = fmt.Sprintf("S>C%d", i)
		}
		seq++
		lm, x := l.make(ln, tag, seq, size, room)
		if lm == nil {
			return nil
		}
		m := &c18msg{lmsg: lm, conn: i, down: down, fails: c.fails}
		byMsg[lm] = m
		all = append(all, m)
		if down {
			send(sep, c.sconn, x)
		} else {
			send(c.ep, c.conn, x)
		}
		return m
	}
	set := func(v bool) {
		zzsim.Count("fault.switch", 1)
		hist = append(hist, change{zzsim.NowNano(), -1, v})
		k := len(hist) - 1
		px.SetEnable(v)
		hist[k].to = zzsim.NowNano()
	}
	start := zzsim.NowNano()
	var done []*bool
	for i := range cl {
		i := i
		done = append(done, h.actor(fmt.Sprintf("C%d", i), fmt.Sprintf("C%d", i), start, func(o Op) { sendOn(i, false, o.A) }))
	}
	done = append(done, h.actor("S", "S", start, func(o Op) { sendOn(o.B, true, o.A) }))
	done = append(done, h.actor("S", "switch", start, func(o Op) { set(o.A == 1) }))
	quiet := start
	done = append(done, h.actor("main", "net", start, func(o Op) {
		switch o.K {
		case "stall":
			if ref {
				return
			}
			cl[o.A%nc].pair.Stall(o.C, zzsim.NowNano()+int64(o.B)*ms)
		case "pause":
			nd := h.Node([]string{"S", "C0", "C1"}[o.A%(nc+1)%3])
			zzsim.Count("fault.pause", 1)
			zzsim.PauseNode(nd)
			zzsim.After(int64(o.B)*ms, func() { zzsim.ResumeNode(nd) })
		case "reset":
			cl[0].pair.Reset()
			return
		}
		if e := zzsim.NowNano() + int64(o.B)*ms; e > quiet {
			quiet = e
		}
	}))
	if !h.Wait(600*sec, func() bool {
		for _, d := range done {
			if !*d {
				return false
			}
		}
		return true
	}) {
		h.Fail("send-blocked", "a sender blocked for 600 s: %v", zzsim.TaskNames(h.Node("S")))
	}
	if d := quiet - zzsim.NowNano(); d > 0 {
		h.Sleep(d)
	}
	// everything that has to have an outcome has one
	fate := func(m *c18msg) (must bool) {
		canOn, canOff := states(m.lmsg.at, zzsim.NowNano())
		return !(canOn && expect(m, true) == "") && !(canOff && expect(m, false) == "")
	}
	waitAll := func() {
		n := -1
		for {
			k, miss := 0, (*c18msg)(nil)
			for _, m := range all {
				if m.outcome != "" {
					k++
				} else if !m.fails && fate(m) && miss == nil {
					miss = m
				}
			}
			if miss == nil {
				return
			}
			if k == n {
				judge(miss, "", zzsim.NowNano())
				return
			}
			n = k
			h.Sleep(20 * sec)
		}
	}
	waitAll()
	h.Sleep(2 * sec)
	// the messages with no outcome, bounded by a later message of the lane
	probe := func(v bool) {
		h.Must("S", "switch", func() { set(v) })
		for i, c := range cl {
			if c.fails {
				continue
			}
			i := i
			h.Must(fmt.Sprintf("C%d", i), "probe", func() { sendOn(i, false, 30); sendOn(i, false, 50) })
			if h.p("below") == 1 {
				continue
			}
			h.Must("S", "probe", func() { sendOn(i, true, 30); sendOn(i, true, 50) })
		}
		h.Sleep(30 * sec)
		waitAll()
	}
	if h.p("below") == 0 {
		probe(false)
		probe(true)
		probe(false)
	} else {
		probe(true)
	}
	for _, x := range held {
		h.Obs()
		if t, s, ok := marker(x.c, codec); !ok || t != x.tag || s != x.seq {
			h.Fail("taken-altered", "message %d.%d was altered after a function had taken it (now %d.%d %v)", x.tag, x.seq, t, s, ok)
		}
	}
	next := map[string]int64{} // lane -> outcome time of the next message
	for i := len(all) - 1; i >= 0; i-- {
		m := all[i]
		if m.outcome != "" {
			next[m.lane] = m.at
		} else if e, ok := next[m.lane]; ok && !m.fails {
			judge(m, "", e)
		}
	}
}

// runC18Loop: a loopback returns every message to the endpoints of its own side.
func runC18Loop(h *H) {
	codec := h.p("codec")
	procs := procsFrom(h.p("procs"))
	unix := h.p("unix") == 1
	l := newLedger(h, codec)
	k := h.newStk("S", h.p("mtu"))
	if h.p("top") == 1 {
		k.add(ustack.NewLoopback())
	}
	k.codec(codec)
	pos := h.p("pos") % (len(procs) + 1)
	for i := 0; i <= len(procs); i++ {
		if i == pos && h.p("top") == 0 {
			k.add(ustack.NewLoopback())
		}
		if i < len(procs) {
			k.add(mkProc(procs[i]))
		}
	}
	k.add(ustack.NewFrameDecoder())
	peer := h.newStk("C0", h.p("mtu")).framed(codec, procs, 0)
	var eps []*EP
	conns := map[*lmsg]ustack.TransportConnection{}
	n := h.p("eps")
	session := func(i int) int { return i * 3 }
	h.Must("S", "build", func() {
		for i := 0; i < n; i++ {
			i := i
			e := newEP(fmt.Sprintf("ep%d", i), session(i), h.p("small"))
			eps = append(eps, e)
			h.recvLoop("S", e, true, func(d ustack.EndPointData) {
				m := l.arrive(fmt.Sprintf("endpoint %d", i), d.GetData(), func(m *lmsg) bool { return m.tag%10 == i })
				if m != nil && d.GetConnection() != conns[m] {
					h.Fail("wrong-connection", "message %d.%d came back with another connection", m.tag, m.seq)
				}
			})
			k.U.AddEndPoint(e)
		}
		k.U.AddTransport(newTransport(unix, true, "t", addrFor(unix, 0)))
		k.U.Run()
	})
	h.Must("C0", "build", func() {
		e := newEP("ep", 0, 0)
		h.recvLoop("C0", e, true, func(d ustack.EndPointData) {
			h.Fail("leaked", "a message of the stack with loopback reached its peer")
		})
		peer.U.AddEndPoint(e)
		peer.U.AddTransport(newTransport(unix, false, "t", addrFor(unix, 0)))
		peer.U.Run()
	})
	if !h.Wait(20*sec, func() bool { return len(k.Conns) > 0 }) {
		h.Fail("no-connection", "no connection within 20 s")
	}
	room := k.room()
	start := zzsim.NowNano()
	seq := 0
	var done []*bool
	for i := range eps {
		i := i
		done = append(done, h.actor("S", fmt.Sprintf("L%d", i), start, func(o Op) {
			dst := o.B
			if dst < 0 || dst >= n {
				dst = i
			}
			seq++
			m, x := l.make(lane(i, dst), i*10+dst, seq, o.A, room)
			if m == nil {
				return
			}
			m.must = true
			d := ustack.NewEndPointData().SetData(x)
			if o.C > 0 {
				d.SetConnection(k.Conns[0])
				conns[m] = k.Conns[0]
			}
			if o.B >= 0 {
				d.SetDestinationSession(session(dst))
			}
			zzsim.To(eps[i].GetTxChannel()).Send(-100, d)
		}))
	}
	if !h.Wait(300*sec, func() bool {
		for _, d := range done {
			if !*d {
				return false
			}
		}
		return true
	}) {
		h.Fail("send-blocked", "a sender blocked for 300 s: %v", zzsim.TaskNames(h.Node("S")))
	}
	l.settle(20*sec, "although it is looped back")
	h.Sleep(2 * sec)
}
