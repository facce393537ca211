package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"fmt"
	"net"
	"strings"

	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// C10: no byte sequence from a peer can crash or wedge a stack.

func init() {
	register(&Scenario{ID: "C10", Gen: genC10, Run: runC10,
		Min: map[string]int{"unix": 0, "procs": 0, "cache": 0, "hserver": 0, "small": 0}})
}

func genC10(g *zzsim.Rng, p *Plan) {
	p.P["mtu"] = []int{120, 300, 300, 2048}[g.Intn(4)]
	p.P["codec"] = g.Intn(codecCount + 2)
	if p.P["codec"] == codecGOB && p.P["mtu"] < 200 {
		p.P["mtu"] = 300
	}
	if p.P["codec"] == codecJSON && p.P["mtu"] < 200 {
		p.P["mtu"] = 300
	}
	if g.Intn(4) > 0 {
		p.P["procs"] = g.Range(1, 1<<20)
	}
	if g.Intn(3) == 0 {
		p.P["cache"] = []int{1, 8, 64, 500, 5000}[g.Intn(5)]
	}
	p.P["unix"] = g.Intn(3) / 2
	p.P["hserver"] = g.Intn(4) / 3
	p.P["small"] = []int{0, 0, 0, 2}[g.Intn(4)]
	tame(g, p, p.P["mtu"])
	span := []int{2000, 200000, 2000000}[g.Intn(3)]
	for i := g.Range(1, 2); i > 0; i-- {
		p.add(int64(g.Intn(span)), "good", "start", i-1)
		for j := g.Range(1, 8); j > 0; j-- {
			p.add(int64(g.Intn(span)), fmt.Sprintf("%s%d", []string{"G", "S"}[g.Intn(2)], i-1), "send", g.Range(14, p.P["mtu"]))
		}
	}
	for i := g.Range(1, 4); i > 0; i-- {
		who := fmt.Sprintf("H%d", i-1)
		at := g.Intn(span)
		p.add(int64(at), who, "dial")
		for j := g.Range(1, 8); j > 0; j-- {
			p.add(int64(at), who, "write", g.Intn(14), g.Range(0, 1<<30))
			at += []int{0, 0, 10, 1000, 100000}[g.Intn(5)]
		}
		switch g.Intn(6) {
		case 0:
			p.add(int64(at+g.Intn(3000)), who, "close")
		case 1:
			p.add(int64(at+g.Intn(3000)), who, "reset")
		case 2:
			p.add(int64(at+g.Intn(3000)), who, "half")
		}
	}
}

// hostile makes the bytes of one write.
func hostile(kind int, seed int, codec int, procs []string, mtu int) []byte {
	g := zzsim.NewRng(uint64(seed))
	rnd := func(n int) []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(g.Uint64())
		}
		return b
	}
	// the headers of the processors, innermost last written
	body := func(payload []byte) []byte {
		out := payload
		for _, q := range procs {
			switch q {
			case "session":
				var s [4]byte
				binary.BigEndian.PutUint32(s[:], []uint32{0, 5, 1, 0xffffffff, 0x80000000}[g.Intn(5)])
				out = append(append([]byte(nil), s[:]...), out...)
			case "stat", "statoff", "heartbeat", "lboff":
				t := byte(0)
				switch g.Intn(6) {
				case 0:
					t = []byte{0x10, 0x23, 0x83, 0x19, 0x82, 0x11, 0x08, 0xff}[g.Intn(8)]
				}
				out = append([]byte{t}, out...)
			}
		}
		return out
	}
	frame := func(b []byte) []byte {
		f := make([]byte, 4, 4+len(b))
		binary.BigEndian.PutUint32(f, uint32(len(b)))
		return append(f, b...)
	}
	valid := func() []byte {
		b := append([]byte("hostile "), rnd(g.Intn(40))...)
		switch codec {
		case codecJSON:
			x, _ := json.Marshal(Msg{7, b})
			return x
		case codecGOB:
			var w bytes.Buffer
			gob.NewEncoder(&w).Encode(Msg{7, b})
			return w.Bytes()
		case codecGenericFull:
			return append([]byte{byte(len(b) >> 8), byte(len(b))}, b...)
		case codecGeneric, codecGenericAll:
			var hd [2]byte
			binary.LittleEndian.PutUint16(hd[:], sum16(b))
			return append(hd[:], b...)
		}
		return b
	}
	mutate := func(b []byte) []byte {
		b = append([]byte(nil), b...)
		for i := g.Range(1, 3); i > 0 && len(b) > 0; i-- {
			switch g.Intn(4) {
			case 0:
				b[g.Intn(len(b))] ^= 1 << uint(g.Intn(8))
			case 1:
				b[g.Intn(len(b))] = []byte{0, 0xff, 0x7f, 0x80}[g.Intn(4)]
			case 2:
				b = b[:g.Intn(len(b)+1)]
			case 3:
				k := g.Intn(len(b) + 1)
				b = append(append(append([]byte(nil), b[:k]...), rnd(g.Range(1, 4))...), b[k:]...)
			}
		}
		return b
	}
	switch kind {
	case 0:
		return rnd(g.Range(1, 300))
	case 1: // odd lengths
		var f [4]byte
		binary.BigEndian.PutUint32(f[:], []uint32{0, 1, uint32(mtu), uint32(mtu) - 1, uint32(mtu) + 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc, 0xfffffffb, uint32(g.Intn(4 * mtu)), 1 << 24}[g.Intn(12)])
		return append(f[:], rnd(g.Intn(50))...)
	case 2: // empty frames
		return bytes.Repeat([]byte{0, 0, 0, 0}, g.Range(1, 9))
	case 3: // a good frame
		return frame(body(valid()))
	case 4: // good framing, mutated message
		return frame(mutate(body(valid())))
	case 5: // mutated frame
		return mutate(frame(body(valid())))
	case 6: // good framing and headers, mutated codec payload
		return frame(body(mutate(valid())))
	case 7: // self messages, also incomplete
		b := []byte{[]byte{0x10, 0x23, 0x83, 0x19, 0x82, 0x11, 0x08}[g.Intn(7)]}
		b = append(b, rnd(g.Intn(30))...)
		return bytes.Repeat(frame(b), g.Range(1, 4))
	case 8: // truncated frame
		b := frame(body(valid()))
		return b[:g.Intn(len(b)+1)]
	case 9: // short frames, shorter than the headers
		var out []byte
		for i := g.Range(1, 6); i > 0; i-- {
			out = append(out, frame(rnd(g.Intn(7)))...)
		}
		return out
	case 10: // the largest frame
		return frame(rnd(mtu - 4 + g.Intn(9)))
	case 11: // many frames at once
		var out []byte
		for i := g.Range(2, 12); i > 0; i-- {
			if g.Intn(3) == 0 {
				out = append(out, frame(mutate(body(valid())))...)
			} else {
				out = append(out, frame(body(valid()))...)
			}
		}
		return out
	case 12: // nasty text for the codecs
		t := []string{"null", "[]", "{}", "{\"ID\":1e999}", "{\"ID\":\"x\"}", "{\"Body\":\"!!!\"}", strings.Repeat("[", 100), "\x00", "\xff\xfe", "\"" + strings.Repeat("\\", 51), "{\"ID\":1}{\"ID\":2}", "true", "1"}[g.Intn(13)]
		return frame(body([]byte(t)))
	case 13: // empty message below every header
		return frame(body(nil))
	}
	return nil
}

func runC10(h *H) {
	codec := h.p("codec")
	procs := procsFrom(h.p("procs"))
	session := 0
	if has(procs, "session") {
		session = 5
	}
	unix := h.p("unix") == 1
	network := "tcp"
	if unix {
		network = "unix"
	}
	addr := addrFor(unix, 0)
	haddr := addrFor(unix, 3)
	l := newLedger(h, codec)
	l.loose = false
	srv := h.newStk("S", h.p("mtu")).framed(codec, procs, h.p("cache"))
	type good struct {
		name  string
		i     int
		stk   *Stk
		ep    *EP
		conn  ustack.TransportConnection
		sconn ustack.TransportConnection
		seq   int
		dseq  int
	}
	gs := map[int]*good{}
	var sep *EP
	known := map[ustack.TransportConnection]*good{}
	arriveS := func(d ustack.EndPointData) {
		x := known[d.GetConnection()]
		if x == nil {
			b, ok := unpack(codec, d.GetData())
			if !ok {
				return // whatever a hostile peer sent
			}
			for _, y := range gs {
				if y.sconn == nil && string(b) == "hello "+y.name {
					y.sconn = d.GetConnection()
					known[y.sconn] = y
				}
			}
			return
		}
		l.arrive("S", d.GetData(), func(m *lmsg) bool { return m.tag == x.i })
	}
	h.Must("S", "build", func() {
		sep = newEP("ep", session, h.p("small"))
		h.recvLoop("S", sep, true, arriveS)
		srv.U.AddEndPoint(sep)
		srv.U.AddTransport(newTransport(unix, true, "t", addr))
		if h.p("hserver") == 1 {
			srv.U.AddTransport(newTransport(unix, false, "c", haddr))
		}
		srv.U.Run()
	})
	room := srv.room()
	startGood := func(i int) *good {
		x := &good{name: fmt.Sprintf("good%d", i), i: i}
		gs[i] = x
		x.stk = h.newStk(x.name, h.p("mtu")).framed(codec, procs, h.p("cache"))
		x.stk.OnEv = func(e Ev) {
			if e.Type == ustack.UStackEventNewConnection && x.conn == nil {
				x.conn = e.Conn
			}
		}
		h.Go(x.name, "build", func() {
			x.ep = newEP("ep", session, 0)
			h.recvLoop(x.name, x.ep, true, func(d ustack.EndPointData) {
				l.arrive(x.name, d.GetData(), func(m *lmsg) bool { return m.tag == 100+i })
			})
			x.stk.U.AddEndPoint(x.ep)
			x.stk.U.AddTransport(newTransport(unix, false, "t", addr))
			x.stk.U.Run()
			h.Wait(30*sec, func() bool { return x.conn != nil })
			if x.conn != nil {
				send(x.ep, x.conn, pack(codec, 0, []byte("hello "+x.name)))
				x.seq = 1
			}
		})
		return x
	}
	start := zzsim.NowNano()
	var dones []*bool
	dones = append(dones, h.actor("main", "good", start, func(o Op) {
		if gs[o.A] == nil {
			startGood(o.A)
		}
	}))
	up := func(x *good, size int) {
		s := x.seq
		x.seq++
		if m, b := l.make(x.name+">S", x.i, s, size, room); m != nil {
			m.must = true
			send(x.ep, x.conn, b)
		}
	}
	down := func(x *good, size int) {
		s := x.dseq
		x.dseq++
		if m, b := l.make("S>"+x.name, 100+x.i, s, size, room); m != nil {
			m.must = true
			send(sep, x.sconn, b)
		}
	}
	starts := func(i int) bool {
		for _, o := range h.P.Ops {
			if o.Who == "good" && o.A == i {
				return true
			}
		}
		return false
	}
	for i := 0; i < 2; i++ {
		i := i
		dones = append(dones, h.actor(fmt.Sprintf("good%d", i), fmt.Sprintf("G%d", i), start, func(o Op) {
			if !starts(i) {
				return
			}
			if !h.Wait(30*sec, func() bool { return gs[i] != nil && gs[i].seq > 0 }) {
				h.Fail("wedged", "good client %d did not connect within 30 s", i)
				return
			}
			up(gs[i], o.A)
		}))
		dones = append(dones, h.actor("S", fmt.Sprintf("S%d", i), start, func(o Op) {
			if !starts(i) {
				return
			}
			if !h.Wait(30*sec, func() bool { return gs[i] != nil && gs[i].sconn != nil }) {
				h.Fail("wedged", "good client %d was not heard within 30 s", i)
				return
			}
			down(gs[i], o.A)
		}))
	}
	// the hostile ones
	var hc []net.Conn
	lis := make([]net.Conn, 0)
	var hln net.Listener
	gone := false
	if h.p("hserver") == 1 {
		h.Go("H0", "listen", func() {
			ln, err := snet.Listen(network, haddr)
			if err != nil {
				return
			}
			hln = ln
			for {
				c, err := ln.Accept()
				if err != nil {
					return
				}
				if gone {
					c.Close()
					continue
				}
				lis = append(lis, c)
				hc = append(hc, c)
			}
		})
	}
	for i := 0; i < 4; i++ {
		who := fmt.Sprintf("H%d", i)
		var c net.Conn
		dones = append(dones, h.actor(who, who, start, func(o Op) {
			switch o.K {
			case "dial":
				if i == 0 && h.p("hserver") == 1 && h.Wait(3*sec, func() bool { return len(lis) > 0 }) {
					c = lis[0]
				} else {
					k, err := snet.Dial(network, addr)
					if err != nil {
						h.Fail("wedged", "hostile client cannot dial: %v", err)
						return
					}
					c = k
					hc = append(hc, c)
				}
				rd := c
				if h.P.Seed>>uint(i)&1 == 0 { // some never read
					h.Go(who, "drain", func() {
						b := make([]byte, 100)
						for {
							if _, err := rd.Read(b); err != nil {
								return
							}
						}
					})
				}
			case "write":
				if c == nil {
					return
				}
				zzsim.Count("fault.hostile-bytes", 1)
				b := hostile(o.A, o.B, codec, procs, h.p("mtu"))
				k := c
				w := false
				h.Go(who, "write", func() { k.Write(b); w = true })
				h.Wait(2*sec, func() bool { return w })
			case "close":
				if c != nil {
					zzsim.Count("fault.truncate-close", 1)
					c.Close()
				}
			case "half":
				if k, ok := c.(interface{ CloseWrite() error }); ok {
					zzsim.Count("fault.truncate-half", 1)
					k.CloseWrite()
				}
			case "reset":
				if c != nil {
					if p := snet.PairOf(c); p != nil {
						p.Reset()
					}
				}
			}
		}))
	}
	if !h.Wait(300*sec, func() bool {
		for _, d := range dones {
			if !*d {
				return false
			}
		}
		return true
	}) {
		h.Fail("wedged", "well-behaved clients cannot finish: %v", zzsim.TaskNames(h.Node("S")))
	}
	l.settle(40*sec, "because a hostile peer is connected")
	// a new client is served as if nothing had happened
	serve := func(i int) {
		x := startGood(i)
		if !h.Wait(30*sec, func() bool { return x.conn != nil && x.sconn != nil }) {
			h.Fail("wedged", "a new client is not served: %v", zzsim.TaskNames(h.Node("S")))
			return
		}
		h.Must(x.name, "send", func() { up(x, 60); up(x, 20) })
		h.Must("S", "send", func() { down(x, 60); down(x, 20) })
		l.settle(40*sec, "after a hostile peer")
	}
	serve(2)
	// nothing remains of them once they are gone
	gone = true
	if hln != nil {
		hln.Close()
	}
	for _, c := range hc {
		c.Close()
	}
	want := len(gs)
	if !h.Wait(20*sec, func() bool { return h.Net.OpenConns("S") == want }) {
		h.Fail("wedged", "%d connections of hostile peers are still held 20 s after they have gone: %v", h.Net.OpenConns("S")-want, zzsim.TaskNames(h.Node("S")))
	}
	serve(3)
}
