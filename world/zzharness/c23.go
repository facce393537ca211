package main

import (
	"fmt"

	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// C23: a user's processor sits in the pipeline exactly where it was put.

func init() {
	register(&Scenario{ID: "C23", Gen: genC23, Run: runC23,
		Min: map[string]int{"procs": 0, "unix": 0, "slow": 0, "top": 0, "swallow": 0, "clients": 1, "small": 0, "codec": 0, "ref": 0}})
}

func genC23(g *zzsim.Rng, p *Plan) {
	defer genLull(g, p)
	p.P["mtu"] = []int{250, 400, 2048}[g.Intn(3)]
	p.P["codec"] = []int{codecBytes, codecString}[g.Intn(2)]
	p.P["procs"] = g.Range(1, 1<<20)
	p.P["spies"] = g.Range(1, 1<<20)
	p.P["top"] = g.Intn(2)
	p.P["unix"] = g.Intn(2)
	p.P["clients"] = g.Range(1, 3)
	p.P["eps"] = g.Range(1, 3)
	p.P["small"] = []int{0, 0, 1, 3}[g.Intn(4)]
	if g.Intn(3) == 0 {
		p.P["slow"] = g.Range(1, 3000) // microseconds
	}
	if g.Intn(3) == 0 {
		p.P["swallow"] = g.Range(1, 1<<16)
	}
	if p.Net.Window < 150 {
		p.Net.Window = 150
	}
	tame(g, p, 600)
	if g.Intn(6) == 0 { // processors with large headers
		p.P["fat"], p.P["mtu"] = 1, 2048
		tame(g, p, 2048)
		if p.Net.Window < 4096 {
			p.Net.Window = 4096
		}
	}
	if g.Intn(5) == 0 {
		p.P["ref"] = 1
		p.P["eps"] = 1
	}
	if g.Intn(3) == 0 { // the server greets a client as soon as it is there
		p.P["hello"] = 1
		if g.Intn(2) == 0 {
			p.Net.MinDelay, p.Net.MaxDelay = 100, 1000
		}
	}
	n, m := p.P["clients"], p.P["eps"]
	more := 1
	if genRush(g, p, 25) {
		more = 20
		delete(p.P, "slow")
		delete(p.P, "fat")
	}
	span := []int{300, 20000, 4000000}[g.Intn(3)]
	at := func() int64 { return int64(g.Intn(span)) }
	for c := 0; c < n; c++ {
		for s := 0; s < m; s++ {
			for i := g.Intn(7 * more); i > 0; i-- {
				p.add(at(), fmt.Sprintf("C%d.%d", c, s), "send", 0, s, g.Range(minTagged, 130))
			}
		}
	}
	for s := 0; s < m; s++ {
		for i := g.Intn(7 * more); i > 0; i-- {
			p.add(at(), fmt.Sprintf("S.%d", s), "send", g.Intn(n), g.Intn(m), g.Range(minTagged, 130))
		}
	}
	for i := g.Intn(6); i > 0; i-- {
		p.add(at(), fmt.Sprintf("ctl%d", g.Intn(2)), "ctl", g.Intn(n), g.Intn(6), g.Range(1, 60))
	}
	if g.Intn(4) == 0 {
		p.add(at(), "net", []string{"reset", "close", "sclose"}[g.Intn(3)], g.Intn(n))
	}
}

// c23msg is one message on its way through the processors of both sides.
type c23msg struct {
	name     string
	from, to int // node: 0 server, 1.. clients
	seq      int
	origin   int // the spy that made it, 0 also for the messages of endpoints
	ctl      bool
	session  int
	body     string
	lane     string
	down, up []int
	gone     bool // swallowed
	got      int
}

type c23foreign struct{}

// c23side is one stack.
type c23side struct {
	n     int
	node  string
	stk   *Stk
	spies []*Spy
	k     []int
	sent  []map[string]int     // what passed spy i downwards, per peer and content
	owner []map[string]*c23msg // whose that is
	last  map[string]int
	runs  []int
	data  bool
}

func runC23(h *H) {
	n, m := h.p("clients"), h.p("eps")
	codec := h.p("codec")
	ref := h.p("ref") == 1 // over reference connections: the messages themselves, no bytes
	var procs []string
	session := false
	for _, x := range procsFrom(h.p("procs")) {
		if ref && x == "session" {
			continue
		}
		procs = append(procs, x)
		session = session || x == "session"
	}
	if !session {
		if m > 1 {
			procs = append(procs, "session")
			session = true
		}
	}
	foreign := has(procs, "heartbeat") && !ref
	bodyOf := func(v interface{}) ([]byte, bool) {
		if ref {
			x, ok := v.(*c23msg)
			if !ok {
				return nil, false
			}
			return []byte(x.body), ok
		}
		return unpack(codec, v)
	}
	g := zzsim.NewRng(uint64(h.p("spies")))
	// after which processors there is a spy, and its overhead; -1: no spy
	ks := []int{[]int{0, 0, 1, 5}[g.Intn(4)]}
	for range procs {
		k := []int{-1, -1, 0, 1, 2, 5}[g.Intn(6)]
		if h.p("fat") == 1 {
			k = []int{-1, 0, 1, 5, 20, 130}[g.Intn(6)]
		}
		ks = append(ks, k)
	}
	var spyK []int
	for _, k := range ks {
		if k >= 0 {
			spyK = append(spyK, k)
		}
	}
	nspy := len(spyK)
	sg := zzsim.NewRng(uint64(h.p("swallow")))
	swallowSpy, swallowUp, swallowMod := sg.Intn(nspy), sg.Intn(2) == 1, sg.Range(2, 4)
	sides := make([]*c23side, n+1)
	msgs := map[string]*c23msg{} // by body
	broken := make([]bool, n+1)
	for _, o := range h.ops("net") {
		if o.A < n {
			broken[o.A+1] = true
		}
	}
	// peer finds the other end of a connection
	peer := func(sd *c23side, c ustack.TransportConnection) int {
		for i, x := range sd.stk.Conns {
			if x == c {
				if sd.n == 0 {
					return i + 1
				}
				return 0
			}
		}
		return -1
	}
	isBroken := func(a, b int) bool { return broken[a] || broken[b] }
	content := func(sd *c23side, what string, c ustack.Context) (*ustack.UBuf, string) {
		if ref {
			x, ok := c.GetMessage().(*c23msg)
			if !ok {
				h.Fail("unknown-data", "%s: the context has message %T", what, c.GetMessage())
			}
			return nil, x.body
		}
		ub := c.GetBuffer()
		if ub == nil {
			h.Fail("no-buffer", "%s: the context has no buffer", what)
		}
		b := make([]byte, ub.ReadableLength())
		ub.Peek(b)
		return ub, string(b)
	}
	slow := func(c *c23msg) {
		if d := h.p("slow"); d > 0 {
			h.Sleep(int64(d) * us)
		}
	}
	opt := func(d string, i int) string { return fmt.Sprintf("%s%d", d, i) }
	mk := func(i int) *c23side {
		sd := &c23side{n: i, node: "S", last: map[string]int{}}
		if i > 0 {
			sd.node = fmt.Sprintf("C%d", i-1)
		}
		s := h.newStk(sd.node, h.p("mtu"))
		sd.stk = s
		sd.runs = make([]int, nspy)
		var top *Spy
		if h.p("top") == 1 {
			top = newSpy("top")
			top.Down = func(c ustack.Context) bool {
				b, ok := bodyOf(c.GetMessage())
				x := msgs[string(b)]
				if !ok || x == nil {
					h.Fail("unknown-data", "%s: the processor at the top is given %s to send, which no endpoint sent", sd.node, brief(b))
				}
				if p := peer(sd, c.GetConnection()); p != x.to || sd.n != x.from {
					h.Fail("wrong-connection", "%s: the processor at the top is given %s for the connection to %d", sd.node, x.name, p)
				}
				if v, ok := ustack.OptionParseInt(c.GetOption("session"), -1); !ok || v != x.session {
					h.Fail("context-mixed", "%s: %s for session %d comes with session %v", sd.node, x.name, x.session, c.GetOption("session"))
				}
				if c.GetOption("dtop") != nil {
					h.Fail("context-mixed", "%s: %s comes with a context that has been here before", sd.node, x.name)
				}
				c.SetOption("dtop", x)
				h.Obs()
				return true
			}
			top.Up = func(c ustack.Context) bool {
				b, ok := bodyOf(c.GetMessage())
				x := msgs[string(b)]
				if !ok || x == nil || x.ctl {
					h.Fail("unknown-data", "%s: the processor at the top receives %s, which no endpoint sent", sd.node, brief(b))
				}
				if p := peer(sd, c.GetConnection()); p != x.from || sd.n != x.to {
					h.Fail("wrong-connection", "%s: the processor at the top receives %s from the connection to %d", sd.node, x.name, p)
				}
				if c.GetOption("utop") != nil || c.GetOption("u0") != interface{}(x) {
					h.Fail("context-mixed", "%s: %s comes with the context of something else", sd.node, x.name)
				}
				if session {
					if v, ok := ustack.OptionParseInt(c.GetOption("session"), -1); !ok || v != x.session {
						h.Fail("context-mixed", "%s: %s for session %d comes with session %v", sd.node, x.name, x.session, c.GetOption("session"))
					}
				}
				c.SetOption("utop", x)
				return true
			}
			ran := 0
			top.OnRun = func() {
				ran++
				if ran > 1 || top.U != s.U || top.up == nil || top.low == nil || sd.data {
					h.Fail("not-set-up", "%s, the processor at the top: run %d times, with stack %v, upper %v, lower %v, data before %v", sd.node, ran, top.U == s.U, top.up != nil, top.low != nil, sd.data)
				}
			}
			s.add(top)
		}
		if !ref {
			s.codec(codec)
		}
		for j := 0; j < nspy; j++ {
			j := j
			k := spyK[j]
			sp := newSpy(fmt.Sprintf("spy%d", j))
			sp.overhead = k
			sd.sent = append(sd.sent, map[string]int{})
			sd.owner = append(sd.owner, map[string]*c23msg{})
			sd.spies = append(sd.spies, sp)
			what := func() string { return fmt.Sprintf("%s, processor %d of %d", sd.node, j, nspy) }
			sp.OnRun = func() {
				sd.runs[j]++
				if sd.runs[j] > 1 || sp.U != s.U || sp.up == nil || sp.low == nil || sd.data {
					h.Fail("not-set-up", "%s: run %d times, with stack %v, upper %v, lower %v, data before %v", what(), sd.runs[j], sp.U == s.U, sp.up != nil, sp.low != nil, sd.data)
				}
				if v := s.U.GetOverhead(); v != s.Over {
					h.Fail("wrong-overhead", "%s: the overhead of the stack is %d, its processors' sum is %d", sd.node, v, s.Over)
				}
			}
			sp.Down = func(c ustack.Context) bool {
				sd.data = true
				if sd.runs[j] == 0 {
					h.Fail("not-set-up", "%s: data to send before Run", what())
				}
				ub, b := content(sd, what(), c)
				to := peer(sd, c.GetConnection())
				if to < 0 {
					h.Fail("wrong-connection", "%s: data to send on a connection nobody announced", what())
				}
				var x *c23msg
				for i := 0; i < nspy; i++ {
					if v, ok := c.GetOption(opt("d", i)).(*c23msg); ok {
						x = v
						break
					}
				}
				if j == 0 {
					if x != nil {
						h.Fail("context-mixed", "%s: something to send comes with the context of %s", what(), x.name)
					}
					x = msgs[b]
					if x == nil {
						h.Fail("unknown-data", "%s: %s to send, which no endpoint sent", what(), brief([]byte(b)))
					}
					if top != nil && c.GetOption("dtop") != interface{}(x) {
						h.Fail("context-mixed", "%s: %s comes with the context of something else", what(), x.name)
					}
				}
				if x == nil && !foreign {
					h.Fail("context-mixed", "%s: %s to send comes with a context of its own", what(), brief([]byte(b)))
				}
				for i := 0; i < nspy; i++ {
					v := c.GetOption(opt("d", i))
					want := x != nil && i >= x.origin && i < j
					if _, ok := v.(c23foreign); ok && x == nil && i < j {
						continue // a message that a processor in between made
					}
					if want && v != interface{}(x) || !want && v != nil {
						h.Fail("order", "%s: data to send (%v) has passed processor %d: %v", what(), x != nil, i, v != nil)
					}
					if c.GetOption(opt("u", i)) != nil {
						h.Fail("context-mixed", "%s: data to send comes with a context of received data", what())
					}
				}
				if x != nil {
					if x.from != sd.n || x.to != to {
						h.Fail("wrong-connection", "%s: %s on the connection to %d", what(), x.name, to)
					}
					x.down[j]++
					if x.down[j] > 1 || x.gone {
						h.Fail("duplicate", "%s: %s comes %d times, swallowed %v", what(), x.name, x.down[j], x.gone)
					}
					if l, ok := sd.last[opt(x.lane+"/d", j)]; ok && l > x.seq && !x.ctl {
						h.Fail("reordered", "%s: %s comes after %d", what(), x.name, l)
					}
					sd.last[opt(x.lane+"/d", j)] = x.seq
					c.SetOption(opt("d", j), x)
				} else {
					c.SetOption(opt("d", j), c23foreign{})
				}
				h.Obs()
				if x != nil && !x.ctl && h.p("swallow") > 0 && j == swallowSpy && !swallowUp && x.seq%swallowMod == 0 {
					x.gone = true
					return false
				}
				slow(x)
				for i := k - 1; i >= 0 && !ref; i-- {
					if err := ub.WriteHeadByte(byte(j*16 + i)); err != nil {
						h.Fail("no-room", "%s: no room for the header of %d bytes although it is part of the overhead: %v", what(), k, err)
					}
				}
				_, b = content(sd, what(), c)
				sd.sent[j][fmt.Sprintf("%d:%s", to, b)]++
				if x != nil {
					sd.owner[j][fmt.Sprintf("%d:%s", to, b)] = x
				}
				return true
			}
			sp.Up = func(c ustack.Context) bool {
				sd.data = true
				if sd.runs[j] == 0 {
					h.Fail("not-set-up", "%s: received data before Run", what())
				}
				ub, b := content(sd, what(), c)
				from := peer(sd, c.GetConnection())
				if from < 0 {
					h.Fail("wrong-connection", "%s: data received on a connection nobody announced", what())
				}
				o := sides[from]
				id := fmt.Sprintf("%d:%s", sd.n, b)
				if o.sent[j][id] <= 0 {
					h.Fail("unknown-data", "%s: receives %s, which its counterpart did not pass on to be sent", what(), brief([]byte(b)))
				}
				o.sent[j][id]--
				x := o.owner[j][id]
				mark := interface{}(c23foreign{})
				if x != nil {
					mark = x
				}
				for i := 0; i < nspy; i++ {
					v := c.GetOption(opt("u", i))
					if i > j && v != mark || i <= j && v != nil {
						name := "something of a processor's own"
						if x != nil {
							name = x.name
						}
						h.Fail("order", "%s: %s received: its context says it passed processor %d: %v", what(), name, i, v != nil)
					}
					if c.GetOption(opt("d", i)) != nil {
						h.Fail("context-mixed", "%s: received data comes with a context of sent data", what())
					}
				}
				c.SetOption(opt("u", j), mark)
				h.Obs()
				for i := 0; i < k && !ref; i++ {
					if v, err := ub.ReadByte(); err != nil || v != byte(j*16+i) {
						h.Fail("unknown-data", "%s: byte %d of its header is %d", what(), i, v)
					}
				}
				if x == nil {
					return true
				}
				x.up[j]++
				if x.up[j] > 1 || x.gone {
					h.Fail("duplicate", "%s: %s received %d times, swallowed %v", what(), x.name, x.up[j], x.gone)
				}
				if l, ok := sd.last[opt(x.lane+"/u", j)]; ok && l > x.seq && !x.ctl {
					h.Fail("reordered", "%s: %s received after %d", what(), x.name, l)
				}
				sd.last[opt(x.lane+"/u", j)] = x.seq
				if x.ctl && x.origin == j {
					x.got++
					return false
				}
				if !x.ctl && h.p("swallow") > 0 && j == swallowSpy && swallowUp && x.seq%swallowMod == 0 {
					x.gone = true
					return false
				}
				slow(x)
				return true
			}
		}
		next := 0
		for q, k := range ks {
			if q > 0 {
				s.add(mkProc(procs[q-1]))
			}
			if k >= 0 {
				s.add(sd.spies[next])
				next++
			}
		}
		if !ref {
			s.add(ustack.NewFrameDecoder())
		}
		sides[i] = sd
		return sd
	}
	arrive := func(sd *c23side, s int) func(ustack.EndPointData) {
		return func(d ustack.EndPointData) {
			b, ok := bodyOf(d.GetData())
			x := msgs[string(b)]
			if !ok || x == nil || x.ctl {
				h.Fail("unknown-data", "%s: endpoint %d is given %s, which no endpoint sent", sd.node, s, brief(b))
			}
			x.got++
			if x.got > 1 || x.gone {
				h.Fail("duplicate", "%s: %s delivered %d times, swallowed %v", sd.node, x.name, x.got, x.gone)
			}
			if x.session != s || x.to != sd.n || peer(sd, d.GetConnection()) != x.from {
				h.Fail("misrouted", "%s: endpoint %d is given %s", sd.node, s, x.name)
			}
			for j := 0; j < nspy; j++ {
				if x.down[j] != 1 || x.up[j] != 1 {
					h.Fail("passed-by", "%s passed processor %d of %d %d times downwards and %d times upwards before it was delivered", x.name, j, nspy, x.down[j], x.up[j])
				}
			}
		}
	}
	room := 0
	eps := make([][]*EP, n+1)
	var pairs []*snet.Pair
	h.Net.OnPair = func(p *snet.Pair) { pairs = append(pairs, p) }
	conn := func(from, to int) ustack.TransportConnection {
		if from == 0 {
			return sides[0].stk.Conns[to-1]
		}
		return sides[from].stk.Conns[0]
	}
	seq := 0
	var all []*c23msg
	make1 := func(from, to, session, size, origin int, ctl bool, lane string) *c23msg {
		seq++
		b := payload(from*100+to, seq, size)
		x := &c23msg{name: fmt.Sprintf("message %d of %d to %d", seq, from, to), from: from, to: to, seq: seq, origin: origin, ctl: ctl, session: session, lane: lane, body: string(b)}
		x.down, x.up = make([]int, nspy), make([]int, nspy)
		if len(b) < minTagged || len(b) > room || msgs[x.body] != nil {
			return nil
		}
		msgs[x.body] = x
		all = append(all, x)
		return x
	}
	hellos := 0
	hello := func(to int) {
		defer func() { hellos-- }()
		for ses := 0; ses < m && (ses == 0 || session); ses++ {
			if x := make1(0, to, ses, 20, 0, false, fmt.Sprintf("0/0/%d", to)); x != nil {
				var v interface{} = x
				if !ref {
					v = pack(codec, x.seq, []byte(x.body))
				}
				sendTo(eps[0][0], conn(0, to), ses, v)
			}
		}
	}
	for i := 0; i <= n; i++ {
		sd := mk(i)
		room = sd.stk.room()
		if i == 0 && h.p("hello") == 1 {
			sd.stk.OnEv = func(e Ev) {
				if to := len(sd.stk.Conns); e.Type == ustack.UStackEventNewConnection && to <= n {
					hellos++
					h.Go("S", "hello", func() { hello(to) })
				}
			}
		}
		h.Must(sd.node, "build", func() {
			for s := 0; s < m; s++ {
				e := newEP(fmt.Sprintf("ep%d", s), s, h.p("small"))
				eps[i] = append(eps[i], e)
				h.recvLoop(sd.node, e, true, arrive(sd, s))
				sd.stk.U.AddEndPoint(e)
			}
			if !ref {
				sd.stk.U.AddTransport(newTransport(h.p("unix") == 1, i == 0, "t", addrFor(h.p("unix") == 1, 0)))
			} else if i > 0 {
				sd.stk.U.AddTransport(ustack.NewReferenceTransport("r").SetAddress(fmt.Sprintf("ref%d", i)).ForServer(false))
			}
			sd.stk.U.Run()
		})
		for j, k := range sd.runs {
			if k != 1 {
				h.Fail("not-set-up", "%s: processor %d was run %d times when Run returned", sd.node, j, k)
			}
		}
		if i > 0 {
			if ref {
				h.Must("S", "transport", func() {
					sides[0].stk.U.AddTransport(ustack.NewReferenceTransport("r").SetAddress(fmt.Sprintf("ref%d", i)).ForServer(true))
				})
			}
			if !h.Wait(60*sec, func() bool { return len(sd.stk.Conns) == 1 && len(sides[0].stk.Conns) == i }) {
				h.Fail("not-connected", "%s is not connected", sd.node)
			}
		}
	}
	if !h.Wait(120*sec, func() bool { return hellos == 0 }) {
		h.Fail("send-blocked", "a sender is blocked for 120 s")
	}
	start := zzsim.NowNano()
	var done []*bool
	act := func(i, s int, who string) {
		done = append(done, h.actor(sides[i].node, who, start, func(o Op) {
			to := 0
			if i == 0 {
				to = o.A%n + 1
			}
			ses := o.B % m
			if !session {
				ses = 0
			}
			if x := make1(i, to, ses, o.C, 0, false, fmt.Sprintf("%d/%d/%d", i, s, to)); x != nil {
				var v interface{} = x
				if !ref {
					v = pack(codec, x.seq, []byte(x.body))
				}
				sendTo(eps[i][s], conn(i, to), ses, v)
			}
		}))
	}
	for s := 0; s < m; s++ {
		act(0, s, fmt.Sprintf("S.%d", s))
		for c := 1; c <= n; c++ {
			act(c, s, fmt.Sprintf("C%d.%d", c-1, s))
		}
	}
	// messages the processors themselves make
	for d := 0; d < 2; d++ {
		d := d
		done = append(done, h.actor("main", fmt.Sprintf("ctl%d", d), start, func(o Op) {
			from, to := 0, o.A%n+1
			if d == 1 {
				from, to = to, from
			}
			j := o.B % nspy
			sd := sides[from]
			x := make1(from, to, 0, o.C+minTagged, j, true, fmt.Sprintf("ctl%d", seq))
			if x == nil {
				return
			}
			h.Go(sd.node, "ctl", func() {
				ctx := ustack.NewUStackContext().SetConnection(conn(from, to)).SetOption(opt("d", j), x)
				if ref {
					id := fmt.Sprintf("%d:%s", to, x.body)
					sd.sent[j][id]++
					sd.owner[j][id] = x
					x.down[j]++
					sd.spies[j].low.OnUpperData(ctx.SetMessage(x))
					return
				}
				ub := ustack.UBufAllocWithHeadReserved(sd.stk.U.GetMTU(), sd.stk.U.GetOverhead())
				ub.Write([]byte(x.body))
				for i := spyK[j] - 1; i >= 0; i-- {
					ub.WriteHeadByte(byte(j*16 + i))
				}
				b := make([]byte, ub.ReadableLength())
				ub.Peek(b)
				id := fmt.Sprintf("%d:%s", to, b)
				sd.sent[j][id]++
				sd.owner[j][id] = x
				x.down[j]++
				sd.spies[j].low.OnUpperData(ctx.SetBuffer(ub))
			})
		}))
	}
	done = append(done, h.actor("main", "net", start, func(o Op) {
		c := o.A%n + 1
		switch o.K {
		case "reset":
			for _, p := range pairs {
				if p.ClientNode == sides[c].node {
					p.Reset()
				}
			}
		case "close":
			k := conn(c, 0)
			h.Go(sides[c].node, "close", func() { k.Close() })
		case "sclose":
			k := conn(0, c)
			h.Go("S", "close", func() { k.Close() })
		}
	}))
	if !h.Wait(600*sec, func() bool {
		for _, d := range done {
			if !*d {
				return false
			}
		}
		return true
	}) {
		h.Fail("send-blocked", "a sender is blocked for 600 s")
	}
	missing := func() *c23msg {
		for _, x := range all {
			if !isBroken(x.from, x.to) && x.got == 0 && !x.gone {
				return x
			}
		}
		return nil
	}
	if !h.Wait(120*sec, func() bool { return missing() == nil }) {
		x := missing()
		h.Fail("lost-message", "%s was never delivered; passes downwards %v, upwards %v", x.name, x.down, x.up)
	}
	h.Sleep(3 * sec)
}
