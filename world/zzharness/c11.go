package main

import (
	"fmt"

	"ustack"
	"ustack/zzsim"
)

// C11: the reference transport hands objects over by identity, in order, once.

func init() {
	register(&Scenario{ID: "C11", Gen: genC11, Run: runC11,
		Min: map[string]int{"pairs": 1, "procs": 0, "slow": 0, "shared": 0, "fill": 0}})
}

var refProcs = []string{"filter", "forwarder", "echooff", "discardoff", "flow", "stat", "statoff", "heartbeat", "lboff", "sessionoff", "frame", "frameoff", "bytesoff", "stringoff", "jsonoff", "goboff", "genericoff"}

func genC11(g *zzsim.Rng, p *Plan) {
	defer genLull(g, p)
	np := []int{1, 1, 2}[g.Intn(3)]
	p.P["pairs"] = np
	p.P["q"] = []int{0, 1, 2, 3, 8, 600, 70, 130}[g.Intn(8)]
	if g.Intn(2) == 0 {
		p.P["procs"] = g.Range(1, 1<<20)
	}
	if g.Intn(3) == 0 {
		p.P["slow"] = []int{1, 5, 20}[g.Intn(3)]
	}
	p.P["small"] = g.Intn(4) // channel size of the endpoints, 0: default
	p.P["fill"] = g.Intn(2)
	span := []int{500, 20000, 800000}[g.Intn(3)]
	for i := 0; i < np; i++ {
		for s := 0; s < 2; s++ {
			who := fmt.Sprintf("%s%d", []string{"A", "B"}[s], i)
			p.add(int64(g.Intn(span/4+1)), who+"c", "run")
			at := int64(g.Intn(span))
			for j := g.Intn(7); j > 0; j-- {
				switch g.Intn(5) {
				case 0:
					p.add(at, who+"c", "arm", g.Intn(2))
				case 1:
					p.add(at, who+"c", "close")
				case 2, 3:
					p.add(at, who+"c", "del")
				}
				switch g.Intn(4) {
				case 0:
				case 1:
					at += int64(g.Intn(100))
				case 2:
					at += int64(g.Intn(span))
				case 3:
					at += 4000000
				}
				p.add(at, who+"c", "add")
				at += int64(g.Intn(span))
			}
			for j := g.Intn(16); j > 0; j-- {
				p.add(int64(g.Intn(int(at)+span)), who+"s", "send", g.Intn(5), g.Range(1, 4))
			}
		}
	}
}

type refMsg struct {
	pair, side, seq int
	obj             interface{}
	conn            ustack.TransportConnection
	got, want       int
}

type refObj struct{ m *refMsg }

type refKey struct {
	pair, side int
	val        interface{}
}

// refValue is the k-th of a list of different values without an address.
func refValue(k int) interface{} {
	zero := []interface{}{"", 0, false, struct{}{}, (*refObj)(nil), [0]byte{}, byte(0), 0.0, error(nil) == nil}
	if k < len(zero) {
		return zero[k]
	}
	if k%2 == 0 {
		return k
	}
	return fmt.Sprint("value ", k)
}

// isBytes: values that cannot be compared.
func isBytes(v interface{}) bool {
	switch v.(type) {
	case []byte, map[string]*refMsg:
		return true
	}
	return false
}

type refSide struct {
	pair, side int
	node       string
	stk        *Stk
	ep         *EP
	tp         ustack.Transport
	peer       *refSide
	running    bool
	busy       bool
	present    bool
	delRet     int64
	cur        ustack.TransportConnection
	conns      []ustack.TransportConnection
	closedEv   map[ustack.TransportConnection]int
	arm        int // 1: on new connection, 2: on closed connection
	appClosed  map[ustack.TransportConnection]bool
	msgs       []*refMsg
	last       map[ustack.TransportConnection]int
	queued     int // sends that returned
	values     int
	adds, dels int
	deleting   bool
	born       map[ustack.TransportConnection]int // deletions begun before it was announced
}

func runC11(h *H) {
	np := h.p("pairs")
	var sides []*refSide
	quit := false
	byObj := map[interface{}]*refMsg{}
	byVal := map[refKey]*refMsg{}
	var procNames []string
	if v := h.p("procs"); v != 0 {
		g := zzsim.NewRng(uint64(v))
		for i := g.Range(1, 3); i > 0; i-- {
			procNames = append(procNames, refProcs[g.Intn(len(refProcs))])
		}
	}
	mk := func(pair, side int) *refSide {
		x := &refSide{pair: pair, side: side, node: fmt.Sprintf("%s%d", []string{"A", "B"}[side], pair), delRet: -1,
			closedEv: map[ustack.TransportConnection]int{}, appClosed: map[ustack.TransportConnection]bool{}, born: map[ustack.TransportConnection]int{}, last: map[ustack.TransportConnection]int{}}
		x.stk = h.newStk(x.node, 200)
		for _, q := range procNames {
			if q == "frame" {
				x.stk.add(ustack.NewFrameDecoder())
			} else {
				x.stk.add(mkProc(q))
			}
		}
		x.ep = newEP("ep", 0, h.p("small"))
		x.tp = ustack.NewReferenceTransport("t").ForServer(side == 0).SetAddress(fmt.Sprintf("ref-%d", pair)).SetOption("MaxQueueSize", h.p("q"))
		return x
	}
	del := func(x *refSide) {
		if !x.present || x.busy {
			return
		}
		x.busy = true
		zzsim.Count("fault.delete", 1)
		x.dels++
		x.deleting = true
		x.stk.U.DeleteTransport(x.tp)
		x.present = false
		x.deleting = false
		x.delRet = zzsim.NowNano()
		x.busy = false
	}
	add := func(x *refSide) {
		if !x.running || x.present || x.busy {
			return
		}
		x.busy = true
		x.adds++
		x.delRet = -1
		x.present = true // from here on a new connection is expected
		x.stk.U.AddTransport(x.tp)
		x.busy = false
	}
	for i := 0; i < np; i++ {
		a, b := mk(i, 0), mk(i, 1)
		a.peer, b.peer = b, a
		sides = append(sides, a, b)
	}
	for _, x := range sides {
		x := x
		x.stk.OnEv = func(e Ev) {
			switch e.Type {
			case ustack.UStackEventNewConnection:
				h.Obs()
				for _, c := range x.conns {
					if c == e.Conn {
						h.Fail("announced-twice", "%s: a connection was announced twice", x.node)
					}
				}
				if len(x.conns) >= x.adds {
					h.Fail("announced-twice", "%s: %d connections announced after %d additions", x.node, len(x.conns)+1, x.adds)
				}
				if !e.Conn.UseReference() {
					h.Fail("not-reference", "%s: the connection does not pass references", x.node)
				}
				x.conns = append(x.conns, e.Conn)
				dels := x.dels
				if x.deleting {
					dels = -1
				}
				if !e.Conn.Closed() { // it may have been deleted already
					x.cur = e.Conn
					x.born[e.Conn] = dels
				} else {
					x.born[e.Conn] = -1
				}
				if x.arm == 1 {
					x.arm = 0
					del(x)
				}
			case ustack.UStackEventConnectionClosed:
				x.closedEv[e.Conn]++
				if x.closedEv[e.Conn] > 1 {
					h.Fail("closed-twice", "%s: a connection was reported closed twice", x.node)
				}
				// who closed it?
				if x.born[e.Conn] == x.dels && !x.appClosed[e.Conn] {
					h.Fail("disturbed", "%s: its connection ended although nobody deleted its transport", x.node)
				}
				if x.arm == 2 {
					x.arm = 0
					del(x)
				}
			}
		}
	}
	for _, x := range sides {
		x := x
		h.Must(x.node, "build", func() {
			h.recvLoop(x.node, x.ep, true, func(d ustack.EndPointData) {
				h.Obs()
				var m *refMsg
				switch o := d.GetData().(type) {
				case *refObj:
					if o != nil {
						m = byObj[o]
					}
				case []byte:
					if len(o) > 0 {
						m = byObj[&o[0]]
					}
				case map[string]*refMsg:
					m = o["m"]
				}
				if m == nil && !isBytes(d.GetData()) {
					m = byVal[refKey{x.pair, 1 - x.side, d.GetData()}]
				}
				if m == nil {
					h.Fail("not-identical", "%s: received %T that is not an object anybody sent", x.node, d.GetData())
					return
				}
				if m.pair != x.pair || m.side == x.side {
					h.Fail("misrouted", "%s: received message %d of side %d of pair %d", x.node, m.seq, m.side, m.pair)
				}
				m.got++
				if m.got > m.want {
					h.Fail("duplicate", "%s: message %d delivered %d times", x.node, m.seq, m.got)
				}
				c := d.GetConnection()
				mine := false
				for _, k := range x.conns {
					mine = mine || k == c
				}
				if !mine {
					h.Fail("misrouted", "%s: message %d is attributed to a connection that was never announced", x.node, m.seq)
				}
				if p, ok := x.last[c]; ok && p > m.seq {
					h.Fail("reordered", "%s: message %d delivered after %d on the same connection", x.node, m.seq, p)
				}
				x.last[c] = m.seq
				if v := h.p("slow"); v > 0 {
					h.Sleep(int64(v) * ms)
				}
			})
			x.stk.U.AddEndPoint(x.ep)
		})
	}
	start := zzsim.NowNano()
	var dones []*bool
	push := func(x *refSide, kind int) {
		if x.cur == nil {
			return
		}
		if k := len(x.msgs); kind == 4 && k > 0 && x.msgs[k-1].conn == x.cur {
			m := x.msgs[k-1] // the same again
			m.want++
			send(x.ep, x.cur, m.obj)
			x.queued++
			return
		}
		m := &refMsg{pair: x.pair, side: x.side, seq: len(x.msgs), conn: x.cur, want: 1}
		x.msgs = append(x.msgs, m)
		switch kind {
		case 0:
			o := &refObj{m}
			m.obj = o
			byObj[o] = m
		case 1:
			b := make([]byte, 3)
			m.obj = b
			byObj[&b[0]] = m
		case 3:
			// plain values, each at most once per side: the empty ones first
			m.obj = refValue(x.values)
			x.values++
			byVal[refKey{x.pair, x.side, m.obj}] = m
		default:
			m.obj = map[string]*refMsg{"m": m}
		}
		send(x.ep, x.cur, m.obj)
		x.queued++
	}
	for _, x := range sides {
		x := x
		dones = append(dones, h.actor(x.node, x.node+"c", start, func(o Op) {
			switch o.K {
			case "run":
				if !x.running {
					x.stk.U.Run()
					x.running = true
					add(x)
				}
			case "add":
				add(x)
			case "del":
				del(x)
			case "arm":
				x.arm = 1 + o.A
			case "close":
				if x.cur != nil {
					zzsim.Count("fault.close", 1)
					x.appClosed[x.cur] = true
					x.cur.Close()
				}
			}
		}))
		dones = append(dones, h.actor(x.node, x.node+"s", start, func(o Op) {
			for i := 0; i < o.B; i++ {
				push(x, o.A)
			}
		}))
	}
	// a deletion closes the connection and unblocks what waits on it
	verify := func(x *refSide) {
		if x.present || x.busy || x.delRet < 0 {
			return
		}
		d := x.delRet
		h.Obs()
		for _, c := range x.conns {
			if !c.Closed() && x.delRet == d {
				h.Fail("not-closed", "%s: a connection is open %d ms after its transport was deleted", x.node, (zzsim.NowNano()-d)/ms)
			}
			if x.closedEv[c] == 0 && x.delRet == d {
				h.Fail("not-closed", "%s: no closed event %d ms after the transport was deleted: %v", x.node, (zzsim.NowNano()-d)/ms, zzsim.TaskNames(h.Node(x.node)))
			}
		}
		if n := len(x.ep.GetTxChannel()); n > 0 && x.delRet == d && !h.Wait(sec, func() bool { return x.delRet != d || len(x.ep.GetTxChannel()) == 0 }) {
			h.Fail("blocked", "%s: %d messages are still waiting %d ms after the transport was deleted: %v", x.node, n, (zzsim.NowNano()-d)/ms, zzsim.TaskNames(h.Node(x.node)))
		}
	}
	h.Go("main", "watch", func() {
		for !quit {
			for _, x := range sides {
				if x.delRet >= 0 && !x.present && !x.busy && zzsim.NowNano() > x.delRet+3*sec {
					verify(x)
				}
			}
			h.Sleep(300 * ms)
		}
	})
	h.Wait(60*sec, func() bool {
		for i, d := range dones {
			if i%2 == 0 && !*d {
				return false
			}
		}
		return true
	})
	for i, d := range dones {
		if i%2 == 0 && !*d {
			h.Fail("blocked", "%s: adding or deleting the transport did not return: %v", sides[i/2].node, zzsim.TaskNames(h.Node(sides[i/2].node)))
		}
	}
	// everybody is there again, on a fresh connection where the old one was closed
	for _, x := range sides {
		x.arm = 0
		x := x
		h.Wait(30*sec, func() bool { return !x.busy })
		if x.cur != nil && x.appClosed[x.cur] {
			h.Must(x.node, "delete", func() { del(x) })
		}
		if !x.running {
			x.running = true
			h.Must(x.node, "run", func() { x.stk.U.Run() })
		}
		h.Must(x.node, "add", func() { add(x) })
		if !h.Wait(10*sec, func() bool { return x.cur != nil && !x.cur.Closed() }) {
			h.Fail("no-connection", "%s: no open connection although the transport was added", x.node)
		}
	}
	if !h.Wait(60*sec, func() bool {
		for _, d := range dones {
			if !*d {
				return false
			}
		}
		return true
	}) {
		h.Fail("blocked", "a sender is blocked although both sides are connected")
	}
	finals := 0
	for _, x := range sides {
		x := x
		h.Go(x.node, "final", func() {
			for i := 0; i < 3; i++ {
				push(x, i)
			}
			finals++
		})
	}
	all := func() *refMsg {
		for _, x := range sides {
			for _, m := range x.msgs {
				if m.got < m.want && m.conn == x.cur {
					return m
				}
			}
		}
		return nil
	}
	h.Wait(60*sec, func() bool { return finals == len(sides) && all() == nil })
	if m := all(); m != nil {
		h.Fail("lost-message", "message %d of side %d of pair %d was never delivered although both sides are connected", m.seq, m.side, m.pair)
	}
	if finals < len(sides) {
		h.Fail("blocked", "a sender is blocked although both sides are connected")
	}
	h.Sleep(50 * ms)
	// the sender is blocked, nothing is lost, when the queue is full
	if h.p("fill") == 1 && (h.p("q") < 20 || h.P.Seed&2 == 0) {
		for _, x := range sides {
			if x.side == int(h.P.Seed&1) {
				continue
			}
			x := x
			y := x.peer
			h.Must(x.node, "delete", func() { del(x) })
			h.Sleep(3 * sec) // what x had taken has been delivered
			n := h.p("q") + 5 + h.p("small")
			from, fromQ := len(y.msgs), y.queued
			h.Go(y.node, "fill", func() {
				for i := 0; i < n; i++ {
					push(y, 0)
				}
			})
			h.Sleep(2 * sec)
			if h.p("small") > 0 {
				h.Obs()
				if max := h.p("q") + 1 + h.p("small"); y.queued-fromQ > max {
					h.Fail("not-blocking", "%s: %d messages were accepted although nobody receives and the queues hold %d", y.node, y.queued-fromQ, max)
				}
			}
			for _, m := range y.msgs[from:] {
				if m.got > 0 {
					h.Fail("misrouted", "%s: message delivered to a deleted transport", x.node)
				}
			}
			h.Must(x.node, "add", func() { add(x) })
			if !h.Wait(30*sec, func() bool { return len(y.msgs) == from+n && all() == nil }) {
				h.Fail("lost-message", "%s: not all of the messages that had to wait were delivered", y.node)
			}
		}
	}
	for _, x := range sides {
		x := x
		h.Must(x.node, "delete", func() { del(x) })
	}
	h.Sleep(3500 * ms)
	for _, x := range sides {
		verify(x)
	}
	quit = true
	h.Sleep(400 * ms)
}
