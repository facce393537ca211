package main

import (
	"fmt"
	"io"

	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// C06: a client transport retries until the server is there, then connects once.

func init() {
	register(&Scenario{ID: "C06", Gen: genC06, Run: runC06,
		Min: map[string]int{"unix0": 0, "unix1": 0, "unix2": 0, "n": 1, "slow": 0, "hb": 0, "twin": 0}})
}

func genC06(g *zzsim.Rng, p *Plan) {
	n := g.Range(1, 3)
	p.P["n"] = n
	p.P["hb"] = g.Intn(2)
	if g.Intn(4) == 0 {
		p.P["slow"] = []int{1, 300, 2500}[g.Intn(3)]
	}
	if g.Intn(4) == 0 {
		// so many transports of the same address, whose server comes up later
		p.P["twin"] = g.Range(2, 4)
		p.P["twinunix"] = g.Intn(2)
		p.P["twinat"] = []int{0, g.Intn(2000), g.Intn(20000)}[g.Intn(3)]
		p.P["twindel"] = g.Intn(2) // one of them goes again
	}
	for i := 0; i < n; i++ {
		k := func(s string) string { return fmt.Sprintf("%s%d", s, i) }
		p.P[k("unix")] = g.Intn(2)
		switch g.Intn(6) {
		case 0: // the defaults
			p.P[k("M")], p.P[k("I")] = 0, 0
		case 1:
			p.P[k("M")], p.P[k("I")] = g.Range(1, 3), g.Range(1, 10)
		default:
			p.P[k("M")], p.P[k("I")] = g.Range(1, 25), g.Range(1, 4)
		}
		m, iv := p.P[k("M")], p.P[k("I")]
		if m == 0 {
			m, iv = 180, 1
		}
		who := fmt.Sprintf("W%d", i)
		life := int64(m) * int64(iv) * 1000000
		at := int64(0)
		for j := g.Intn(7); j > 0; j-- {
			switch g.Intn(4) {
			case 0:
				at += int64(g.Intn(2000))
			case 1: // around an attempt
				at = (at/int64(iv*1000000)+int64(g.Range(0, 2)))*int64(iv*1000000) + int64(g.Intn(60000))
			case 2:
				at += int64(g.Intn(int(life/3) + 1))
			case 3: // around the last attempt
				at = life - int64(iv)*1000000 + int64(g.Intn(60000)) - 30000
			}
			if at < 0 {
				at = 0
			}
			p.add(at, who, []string{"up", "up", "up", "down", "cut", "heal", "heal", "refuse", "drop", "ok", "late", "crash"}[g.Intn(12)])
		}
		switch g.Intn(4) {
		case 0:
			x := int64(g.Intn(int(life) + 1))
			p.add(x, fmt.Sprintf("A%d", i), "del")
			if g.Intn(2) == 0 {
				// now and then with other settings, or another address
				var nm, ni, na int
				if m != 180 && g.Intn(2) == 0 {
					nm, ni = g.Range(1, 25), g.Range(1, 6)
				}
				if g.Intn(4) == 0 {
					na = 1
				}
				p.add(x+200000+int64(g.Intn(5000000)), fmt.Sprintf("A%d", i), "add", nm, ni, na)
			}
		}
	}
}

// an uninterrupted time in which a client transport belongs to its stack
type c06run struct {
	from, to int64 // AddTransport called; DeleteTransport returned (0: never)
	conns    int
	max      int
	iv       int64
	addr     string
}

func runC06(h *H) {
	const slack = 150 * ms
	n := h.p("n")
	procs := []string{}
	if h.p("hb") == 1 {
		procs = append(procs, "heartbeat")
	}
	c := h.newStk("C", 300).framed(codecBytes, procs, 0)
	type cl struct {
		addr, network string
		addr2         string // the server is there as well
		unix          bool
		tp            ustack.Transport
		max           int
		iv            int64
		runs          []*c06run
		node          string
		up            bool
		fate          string
		cut           bool
		since         int64 // reachable since (0: not)
	}
	var cls []*cl
	announced := 0
	c.OnEv = func(e Ev) {
		if e.Type == ustack.UStackEventNewConnection {
			announced++
			h.Obs()
			if m := h.p("slow"); m > 0 {
				h.Sleep(int64(m) * ms)
			}
		}
	}
	for i := 0; i < n; i++ {
		x := &cl{max: h.p(fmt.Sprintf("M%d", i)), iv: int64(h.p(fmt.Sprintf("I%d", i))) * sec, node: fmt.Sprintf("P%d", i)}
		x.unix = h.p(fmt.Sprintf("unix%d", i)) == 1
		x.addr = addrFor(x.unix, i)
		x.addr2 = addrFor(x.unix, i+n)
		x.network = "tcp"
		if x.unix {
			x.network = "unix"
		}
		if x.unix {
			x.tp = ustack.NewUDSTransport("t")
		} else {
			x.tp = ustack.NewTCPTransport("t")
		}
		x.tp.SetAddress(x.addr).ForServer(false)
		if x.max == 0 {
			x.max, x.iv = 180, sec
		} else {
			x.tp.SetOption("MaxRetryCount", x.max).SetOption("RetryIntervalInSecond", int(x.iv/sec))
		}
		cls = append(cls, x)
	}
	const retries = 40
	var twins []ustack.Transport
	taddr, tnet := addrFor(h.p("twinunix") == 1, 2*n+1), "tcp"
	if h.p("twinunix") == 1 {
		tnet = "unix"
	}
	for i := 0; i < h.p("twin"); i++ {
		twins = append(twins, newTransport(tnet == "unix", false, "t", taddr).SetOption("MaxRetryCount", retries).SetOption("RetryIntervalInSecond", 1))
	}
	find := func(addr string) *cl {
		for _, x := range cls {
			if x.addr == addr || x.addr2 == addr {
				return x
			}
		}
		return nil
	}
	h.Net.DialFault = func(node string, nth int, addr string) string {
		if x := find(addr); x != nil && node == "C" {
			if x.unix && x.fate != "refuse" {
				return ""
			}
			return x.fate
		}
		return ""
	}
	reach := func(x *cl) {
		now := x.up && (!x.cut || x.unix) && (x.fate == "" || (x.unix && x.fate != "refuse"))
		if now && x.since == 0 {
			x.since = zzsim.NowNano()
		} else if !now {
			x.since = 0
		}
	}
	// attempts of a run
	attempts := func(x *cl, r *c06run) (out []*snet.Attempt) {
		for _, a := range h.Net.Attempts {
			if a.Node == "C" && (a.Addr == x.addr || a.Addr == x.addr2) && a.Start >= r.from && (r.to == 0 || a.Start <= r.to+slack) {
				out = append(out, a)
			}
		}
		return
	}
	h.Must("C", "build", func() {
		c.U.AddEndPoint(newEP("ep", 0, 0))
		for _, x := range cls {
			x.runs = append(x.runs, &c06run{from: zzsim.NowNano(), max: x.max, iv: x.iv, addr: x.addr})
			c.U.AddTransport(x.tp)
		}
		for _, t := range twins {
			c.U.AddTransport(t)
		}
		c.U.Run()
	})
	start := zzsim.NowNano()
	var dones []*bool
	for i := range cls {
		x := cls[i]
		dones = append(dones, h.actor(x.node, fmt.Sprintf("W%d", i), start, func(o Op) {
			switch o.K {
			case "up":
				if x.up {
					return
				}
				x.up = true
				node := x.node
				for _, a := range []string{x.addr, x.addr2} {
					ln, err := snet.Listen(x.network, a)
					if err != nil {
						h.Fail("sim-stuck", "peer cannot listen: %v", err)
						return
					}
					h.Go(node, "server", func() {
						for {
							s, err := ln.Accept()
							if err != nil {
								return
							}
							h.Go(node, "sink", func() {
								b := make([]byte, 64)
								for {
									if _, err := s.Read(b); err != nil {
										s.Close()
										return
									}
								}
							})
						}
					})
				}
			case "down":
				if x.up {
					h.Net.CrashNode(x.node, false)
					if x.unix {
						h.Net.RemovePath(x.addr)
						h.Net.RemovePath(x.addr2)
					}
					x.up = false
				}
			case "crash":
				if x.up {
					h.Net.CrashNode(x.node, true)
					if x.unix {
						h.Net.RemovePath(x.addr)
						h.Net.RemovePath(x.addr2)
					}
					x.up = false
				}
			case "cut":
				h.Net.Cut("C", x.node)
				x.cut = true
			case "heal":
				h.Net.Heal("C", x.node)
				x.cut = false
			case "refuse", "drop", "late":
				x.fate = o.K
			case "ok":
				x.fate = ""
			}
			reach(x)
		}))
		dones = append(dones, h.actor("C", fmt.Sprintf("A%d", i), start, func(o Op) {
			r := x.runs[len(x.runs)-1]
			switch o.K {
			case "del":
				if r.to == 0 {
					c.U.DeleteTransport(x.tp)
					r.to = zzsim.NowNano()
				}
			case "add":
				if r.to != 0 {
					if zzsim.NowNano() < r.to+slack+50*ms {
						h.Sleep(slack + 50*ms)
					}
					q := &c06run{from: zzsim.NowNano(), max: r.max, iv: r.iv, addr: r.addr}
					if o.A > 0 {
						q.max, q.iv = o.A, int64(o.B)*sec
						x.tp.SetOption("MaxRetryCount", o.A).SetOption("RetryIntervalInSecond", o.B)
					}
					if o.C == 1 {
						q.addr = x.addr2
						x.tp.SetAddress(q.addr)
					}
					x.runs = append(x.runs, q)
					c.U.AddTransport(x.tp)
				}
			}
		}))
	}
	if len(twins) > 0 {
		sink := func(s io.ReadWriteCloser) func() {
			return func() {
				b := make([]byte, 64)
				for {
					if _, err := s.Read(b); err != nil {
						s.Close()
						return
					}
				}
			}
		}
		h.Go("PT", "server", func() {
			h.Sleep(int64(h.p("twinat"))*ms + 1)
			ln, err := snet.Listen(tnet, taddr)
			if err != nil {
				h.Fail("sim-stuck", "peer cannot listen: %v", err)
				return
			}
			for {
				s, err := ln.Accept()
				if err != nil {
					return
				}
				h.Go("PT", "sink", sink(s))
			}
		})
		if h.p("twindel") == 1 {
			done := false
			dones = append(dones, &done)
			h.Go("C", "twindel", func() {
				h.Sleep(30 * sec) // all are connected
				c.U.DeleteTransport(twins[0])
				done = true
			})
		}
	}
	late := map[*c06run]bool{}
	check := func(final bool) {
		now := zzsim.NowNano()
		ok := 0
		for i, x := range cls {
			for k, r := range x.runs {
				h.Obs()
				as := attempts(x, r)
				what := fmt.Sprintf("client %d (%s, max %d, interval %d s), run %d", i, x.network, r.max, r.iv/sec, k)
				if len(as) > r.max {
					h.Fail("too-many-dials", "%s: %d dials", what, len(as))
				}
				won := false
				for j, a := range as {
					if a.Addr != r.addr {
						h.Fail("wrong-address", "%s: dial %d goes to %s, not to %s", what, j, a.Addr, r.addr)
					}
					if j > 0 && a.Start < as[j-1].Start+r.iv {
						h.Fail("too-dense", "%s: dial %d only %d ms after dial %d", what, j, (a.Start-as[j-1].Start)/ms, j-1)
					}
					if won {
						h.Fail("dial-after-success", "%s: dial %d although an earlier one had succeeded", what, j)
					}
					if a.End != 0 && a.Err == "" {
						won = true
						// its end has to precede the deletion for it to count
						if r.to == 0 || a.End+slack < r.to {
							if a.End+slack+int64(h.p("slow")*(n+len(twins)))*ms < now {
								ok++
							}
						}
					}
				}
				end := now
				if r.to != 0 {
					end = r.to
				}
				if len(as) == 0 {
					if end > r.from+slack {
						h.Fail("no-dial", "%s: no dial within %d ms", what, slack/ms)
					}
					continue
				}
				last := as[len(as)-1]
				if !won && last.End == 0 && last.Start+sec+slack < end {
					h.Fail("dial-not-limited", "%s: dial %d has not ended after %d ms", what, len(as)-1, (end-last.Start)/ms)
				}
				if !won && last.End != 0 && len(as) < r.max && last.End+r.iv+slack < end {
					h.Fail("stopped-retrying", "%s: dial %d failed %d ms ago (%s), no further dial", what, len(as)-1, (end-last.End)/ms, last.Err)
				}
				// reachable long enough, and not given up before
				if !won && !late[r] && r.to == 0 && k == len(x.runs)-1 && x.since > 0 {
					due := x.since
					if r.from > due {
						due = r.from
					}
					if len(as) < r.max && due+r.iv+sec+slack < now {
						late[r] = true
						h.Fail("not-connected", "%s: reachable for %d ms, %d dials, not connected", what, (now-due)/ms, len(as))
					}
				}
			}
		}
		if len(twins) > 0 {
			dials, won := 0, 0
			for _, a := range h.Net.Attempts {
				if a.Node != "C" || a.Addr != taddr {
					continue
				}
				dials++
				if a.End != 0 && a.Err == "" {
					won++
					if a.End+slack+int64(h.p("slow")*(n+len(twins)))*ms < now {
						ok++
					}
				}
			}
			if dials > retries*len(twins) {
				h.Fail("too-many-dials", "%d transports of one address, %d dials at most each: %d dials", len(twins), retries, dials)
			}
			if won > len(twins) {
				h.Fail("dial-after-success", "%d transports of one address, %d of their dials succeeded", len(twins), won)
			}
			if due := start + int64(h.p("twinat"))*ms + 3*sec; won < len(twins) && due < now {
				h.Fail("not-connected", "%d transports of one address, their server is there since %d ms, %d connected", len(twins), (now-due)/ms+3000, won)
			}
		}
		if announced < ok {
			h.Fail("not-announced", "%d dials succeeded, %d connections announced", ok, announced)
		}
		succ := 0
		for _, a := range h.Net.Attempts {
			if a.Node == "C" && a.End != 0 && a.Err == "" {
				succ++
			}
		}
		if announced > succ {
			h.Fail("announced-twice", "%d dials succeeded, %d connections announced", succ, announced)
		}
		// nothing outside the runs
		for _, a := range h.Net.Attempts {
			if a.Node != "C" {
				continue
			}
			x := find(a.Addr)
			if x == nil {
				continue
			}
			in := false
			for _, r := range x.runs {
				if a.Start >= r.from && (r.to == 0 || a.Start <= r.to+slack) {
					in = true
				}
			}
			if !in {
				h.Fail("dial-after-delete", "%s dialled at %d ms while the transport was deleted", a.Addr, a.Start/ms)
			}
		}
	}
	all := func() bool {
		for _, d := range dones {
			if !*d {
				return false
			}
		}
		return true
	}
	for !all() {
		if zzsim.NowNano() > start+2000*sec {
			h.Fail("blocked", "adding or deleting a transport did not return: %v", zzsim.TaskNames(h.Node("C")))
			return
		}
		h.Sleep(700 * ms)
		check(false)
	}
	// to the end of every retry sequence, and beyond
	var longest int64
	for _, x := range cls {
		for _, r := range x.runs {
			if t := int64(r.max) * (r.iv + sec); t > longest {
				longest = t
			}
		}
	}
	end := zzsim.NowNano() + longest + 20*sec
	for zzsim.NowNano() < end {
		h.Sleep(longest/20 + sec)
		check(false)
	}
	for i, x := range cls {
		r := x.runs[len(x.runs)-1]
		as := attempts(x, r)
		if r.to == 0 && len(as) > 0 && as[len(as)-1].Err != "" && len(as) != r.max {
			h.Fail("stopped-retrying", "client %d gave up after %d of %d dials", i, len(as), r.max)
		}
	}
}
