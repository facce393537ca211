package main

import (
	"fmt"

	"ustack"
	"ustack/zzsim"
)

// C16: events fan out exactly once to everyone registered.

func init() {
	register(&Scenario{ID: "C16", Gen: genC16, Run: runC16, Min: map[string]int{"dup": 0, "slow": 0, "pre": 0}})
}

const (
	c16EPs = 12
	c16TPs = 3
)

func genC16(g *zzsim.Rng, p *Plan) {
	if g.Intn(2) == 0 {
		p.Sched = zzsim.SchedConfig{Strategy: zzsim.StratRandom, P: []float64{0.02, 0.1, 0.4}[g.Intn(3)], StepNanos: 100}
	}
	p.P["slow"] = g.Intn(3)
	p.P["pre"] = g.Range(0, 1<<c16EPs-1)
	if g.Intn(5) == 0 {
		p.P["dup"] = 1
	}
	p.P["eps"] = g.Range(1, 5)
	if g.Intn(8) == 0 {
		p.P["eps"] = g.Range(6, c16EPs)
	}
	p.P["tps"] = g.Range(1, c16TPs)
	p.P["apart"] = g.Intn(2) // every task has endpoints and transports of its own
	span := []int{20, 200, 5000}[g.Intn(3)]
	n := g.Range(1, 4)
	p.P["tasks"] = n
	for w := 0; w < n; w++ {
		for i := many(g, 1, 10, 30, 100); i > 0; i-- {
			k := []string{"addep", "delep", "addep", "delep", "addtp", "deltp", "addtp", "deltp", "listen", "get"}[g.Intn(10)]
			p.add(int64(g.Intn(span)), fmt.Sprintf("W%d", w), k, g.Intn(24))
		}
	}
	for w := g.Range(1, 3); w > 0; w-- {
		for i := many(g, 1, 8, 30, 150); i > 0; i-- {
			p.add(int64(g.Intn(span)), fmt.Sprintf("P%d", w-1), "pub", g.Range(1, 3))
		}
	}
	// what listeners do when they see the n-th event of a type
	for i := g.Intn(5); i > 0; i-- {
		p.add(0, "react", []string{"addep", "delep", "addtp", "deltp", "pub"}[g.Intn(5)], g.Intn(8), g.Range(1, 6), g.Intn(3))
	}
}

type c16ev struct {
	pub, seq   int
	begin, end int64 // steps
	by         map[string]int
}

// c16recv is somebody who is to see events.
type c16recv struct {
	name    string
	intv    [][2]int64 // registered from (call returned) to (call begun); 0: still
	last    map[int]int
	counts  map[string]int
	addBusy int
}

func runC16(h *H) {
	s := h.newStk("S", 200)
	step := zzsim.Steps
	var evs []*c16ev
	slow := func() {
		switch h.p("slow") {
		case 1:
			zzsim.S(-80)
			zzsim.S(-80)
		case 2:
			h.Sleep(15 * us)
		}
	}
	mkRecv := func(name string) *c16recv {
		return &c16recv{name: name, last: map[int]int{}, counts: map[string]int{}}
	}
	var eps []*EP
	var tps []*c16tp
	see := func(r *c16recv, e ustack.Event) {
		switch d := e.Data.(type) {
		case *c16ev:
			h.Obs()
			d.by[r.name]++
			if d.by[r.name] > 1 {
				h.Fail("event-twice", "%s got event %d.%d %d times", r.name, d.pub, d.seq, d.by[r.name])
			}
			if d.end != 0 {
				h.Fail("event-late", "%s got event %d.%d after its publication had returned", r.name, d.pub, d.seq)
			}
			if l, ok := r.last[d.pub]; ok && l >= d.seq {
				h.Fail("event-reordered", "%s got event %d.%d after %d.%d", r.name, d.pub, d.seq, d.pub, l)
			}
			r.last[d.pub] = d.seq
			zzsim.Logf("%s event %d.%d", r.name, d.pub, d.seq)
		case *EP:
			r.counts[fmt.Sprintf("%d ep %s", e.Type, d.Label)]++
			zzsim.Logf("%s event type %d %s", r.name, e.Type, d.Label)
		case *c16tp:
			r.counts[fmt.Sprintf("%d tp %s", e.Type, d.name)]++
			zzsim.Logf("%s event type %d %s", r.name, e.Type, d.name)
		}
	}
	var recvs []*c16recv
	var reacts []func(e ustack.Event)
	listener := func(name string) (*c16recv, func(ustack.Event)) {
		r := mkRecv(name)
		recvs = append(recvs, r)
		return r, func(e ustack.Event) {
			see(r, e)
			slow()
		}
	}
	// operations; ops on one object may overlap
	epBusy := make([]int, c16EPs)
	epLast := make([]int, c16EPs) // 1 added, 2 deleted, 3 unknown
	epOps := make([]int, c16EPs)
	tpOps := make([]int, c16TPs)
	tpBusy := make([]int, c16TPs)
	tpLast := make([]int, c16TPs)
	epRecv := make([]*c16recv, c16EPs)
	returned, called := 0, 0
	closeIntv := func(r *c16recv) {
		for i := range r.intv {
			if r.intv[i][1] == 0 {
				r.intv[i][1] = step()
			}
		}
	}
	doEP := func(i int, add bool) {
		called++
		epBusy[i]++
		epOps[i]++
		op := epOps[i]
		alone := epBusy[i] == 1
		zzsim.Count("fault.churn", 1)
		if add {
			zzsim.Logf("AddEndPoint %d", i)
			s.U.AddEndPoint(eps[i])
		} else {
			zzsim.Logf("DeleteEndPoint %d", i)
			closeIntv(epRecv[i])
			s.U.DeleteEndPoint(eps[i])
		}
		zzsim.Logf("returned")
		epBusy[i]--
		if alone && op == epOps[i] && epBusy[i] == 0 { // nothing else happened to it
			epLast[i] = 2
			if add {
				epLast[i] = 1
				open := false
				for _, x := range epRecv[i].intv {
					open = open || x[1] == 0
				}
				if !open {
					epRecv[i].intv = append(epRecv[i].intv, [2]int64{step(), 0})
				}
			}
		} else {
			epLast[i] = 3
		}
		returned++
	}
	doTP := func(i int, add bool) {
		called++
		tpBusy[i]++
		tpOps[i]++
		op := tpOps[i]
		alone := tpBusy[i] == 1
		zzsim.Count("fault.churn", 1)
		if add {
			zzsim.Logf("AddTransport %d", i)
			s.U.AddTransport(tps[i])
		} else {
			zzsim.Logf("DeleteTransport %d", i)
			s.U.DeleteTransport(tps[i])
		}
		zzsim.Logf("returned")
		tpBusy[i]--
		tpLast[i] = 3
		if alone && op == tpOps[i] && tpBusy[i] == 0 {
			tpLast[i] = 2
			if add {
				tpLast[i] = 1
			}
		}
		returned++
	}
	pubSeq := map[int]int{}
	publish := func(pub int) {
		pubSeq[pub]++
		e := &c16ev{pub: pub, seq: pubSeq[pub], begin: step(), by: map[string]int{}}
		evs = append(evs, e)
		called++
		zzsim.S(-81)
		s.U.PublishEvent(ustack.Event{Type: 100 + pub, Source: h, Data: e})
		e.end = step()
		returned++
		zzsim.S(-81)
	}
	nEP, nTP := h.p("eps"), h.p("tps")
	// reactions: on the n-th event of some kind, from listener 0, an endpoint or the processor
	seen := [3]int{}
	fired := map[int]bool{}
	for ri, o := range h.ops("react") {
		ri, o := ri, o
		reacts = append(reacts, func(e ustack.Event) {
			if fired[ri] || seen[o.C] < o.B {
				return
			}
			fired[ri] = true
			switch o.K {
			case "addep":
				doEP(o.A%nEP, true)
			case "delep":
				doEP(o.A%nEP, false)
			case "addtp":
				doTP(o.A%nTP, true)
			case "deltp":
				doTP(o.A%nTP, false)
			case "pub":
				publish(50 + ri)
			}
		})
	}
	react := func(kind int, e ustack.Event) {
		seen[kind]++
		for _, f := range reacts {
			f(e)
		}
	}
	l0, f0 := listener("L0")
	spyR := mkRecv("processor")
	recvs = append(recvs, spyR)
	spy := newSpy("spy")
	spy.Event = func(e ustack.Event) { see(spyR, e); react(2, e) }
	downs := map[string]int{}
	spy.Down = func(c ustack.Context) bool {
		if m, ok := c.GetMessage().(string); ok {
			downs[m]++
		}
		return false
	}
	s.U.AppendDataProcessor(spy)
	for i := 0; i < nEP; i++ {
		i := i
		session := i
		if h.p("dup") == 1 { // only one of them can take part in the traffic
			session = i / 2
		}
		ep := newEP(fmt.Sprintf("ep%d", i), session, 0)
		eps = append(eps, ep)
		epRecv[i] = mkRecv(ep.Label)
		recvs = append(recvs, epRecv[i])
		ep.SetEventListener(func(_ ustack.EndPoint, e ustack.Event) {
			see(epRecv[i], e)
			slow()
			react(1, e)
		})
	}
	for i := 0; i < nTP; i++ {
		tps = append(tps, &c16tp{memTransport: memTransport{name: fmt.Sprintf("tp%d", i), opt: map[string]interface{}{}}, h: h})
	}
	h.Must("S", "build", func() {
		s.U.SetEventListener(func(e ustack.Event) { f0(e); react(0, e) })
		l0.intv = append(l0.intv, [2]int64{step(), 0})
		for i := 0; i < nEP; i++ {
			if h.p("pre")>>uint(i)&1 == 1 {
				doEP(i, true)
			}
		}
		s.U.Run()
		spyR.intv = append(spyR.intv, [2]int64{step(), 0})
	})
	start := zzsim.NowNano()
	var dones []*bool
	for w := 0; w < h.p("tasks"); w++ {
		w := w
		own := func(a, n int) int {
			if h.p("apart") == 0 {
				return a % n
			}
			k := 0
			for i := w % n; i < n; i += h.p("tasks") {
				k++
			}
			if w >= n || k == 0 {
				return -1
			}
			return w + (a%k)*h.p("tasks")
		}
		dones = append(dones, h.actor("S", fmt.Sprintf("W%d", w), start, func(o Op) {
			switch o.K {
			case "addep", "delep":
				if i := own(o.A, nEP); i >= 0 {
					doEP(i, o.K == "addep")
				}
			case "addtp", "deltp":
				if i := own(o.A, nTP); i >= 0 {
					doTP(i, o.K == "addtp")
				}
			case "listen":
				r, f := listener(fmt.Sprintf("L%d", len(recvs)+100))
				called++
				s.U.SetEventListener(f)
				returned++
				r.intv = append(r.intv, [2]int64{step(), 0})
				zzsim.S(-82)
			case "get":
				seenEP := map[ustack.EndPoint]bool{}
				for _, e := range s.U.GetEndPoint() {
					zzsim.S(-83)
					if e == nil || seenEP[e] {
						h.Fail("bad-registry", "the list of endpoints has empty or repeated entries")
					}
					seenEP[e] = true
				}
				seenTP := map[ustack.Transport]bool{}
				for _, e := range s.U.GetTransport() {
					zzsim.S(-83)
					if e == nil || seenTP[e] {
						h.Fail("bad-registry", "the list of transports has empty or repeated entries")
					}
					seenTP[e] = true
				}
			}
		}))
	}
	for w := 0; w < 3; w++ {
		w := w
		dones = append(dones, h.actor("S", fmt.Sprintf("P%d", w), start, func(o Op) {
			for i := 0; i < o.A; i++ {
				publish(w)
			}
		}))
	}
	if !h.Wait(60*sec, func() bool {
		for _, d := range dones {
			if !*d {
				return false
			}
		}
		return called == returned
	}) {
		h.Fail("blocked", "additions, deletions or publications did not return: %v", zzsim.TaskNames(h.Node("S")))
	}
	h.Sleep(200 * ms)
	// every event reached everybody
	for _, e := range evs {
		for _, r := range recvs {
			for _, x := range r.intv {
				if x[0] <= e.begin && (x[1] == 0 || x[1] > e.end) {
					h.Obs()
					if e.by[r.name] != 1 {
						h.Fail("event-missed", "%s did not get event %d.%d although it was registered (steps %d-%d, published %d-%d)", r.name, e.pub, e.seq, x[0], x[1], e.begin, e.end)
					}
				}
			}
		}
	}
	// additions and deletions: what was announced, what is listed and what works agree
	has := func(n int, f func(int) bool) bool {
		for i := 0; i < n; i++ {
			if f(i) {
				return true
			}
		}
		return false
	}
	regE, regT := s.U.GetEndPoint(), s.U.GetTransport()
	for i, ep := range eps {
		h.Obs()
		reg := has(len(regE), func(k int) bool { return regE[k] == ustack.EndPoint(ep) })
		for _, r := range []*c16recv{l0, spyR} {
			a := r.counts[fmt.Sprintf("%d ep %s", ustack.UStackEventEndpointAdded, ep.Label)]
			d := r.counts[fmt.Sprintf("%d ep %s", ustack.UStackEventEndpointDeleted, ep.Label)]
			if r == spyR {
				a0 := l0.counts[fmt.Sprintf("%d ep %s", ustack.UStackEventEndpointAdded, ep.Label)]
				d0 := l0.counts[fmt.Sprintf("%d ep %s", ustack.UStackEventEndpointDeleted, ep.Label)]
				if a != a0 || d != d0 {
					h.Fail("event-missed", "endpoint %d: the listener got %d added and %d deleted events, the processor %d and %d", i, a0, d0, a, d)
				}
				continue
			}
			if a-d != b2i(reg) {
				h.Fail("change-lost", "endpoint %d: %d additions and %d deletions were announced, registered: %v", i, a, d, reg)
			}
		}
		if epLast[i] == 1 && !reg || epLast[i] == 2 && reg {
			h.Fail("change-lost", "endpoint %d: the last call was an addition: %v, but it is registered: %v", i, epLast[i] == 1, reg)
		}
		if h.p("dup") == 1 {
			continue
		}
		m := fmt.Sprintf("probe %d", i)
		h.Go("S", "probe", func() { send(ep, nil, m) })
		if reg {
			if !h.Wait(5*sec, func() bool { return downs[m] == 1 }) {
				h.Fail("not-attached", "endpoint %d is registered but its messages are not sent", i)
			}
		} else {
			h.Sleep(ms)
			if downs[m] > 0 {
				h.Fail("still-attached", "endpoint %d is not registered but its messages are sent", i)
			}
		}
		spy.up.OnLowerData(ustack.NewUStackContext().SetMessage("up").SetOption("session", i))
		if got := len(ep.GetRxChannel()); got != b2i(reg) {
			h.Fail("not-attached", "endpoint %d: registered %v, but %d messages were delivered to it", i, reg, got)
		}
	}
	for i, tp := range tps {
		h.Obs()
		reg := has(len(regT), func(k int) bool { return regT[k] == ustack.Transport(tp) })
		a := l0.counts[fmt.Sprintf("%d tp %s", ustack.UStackEventTransportAdded, tp.name)]
		d := l0.counts[fmt.Sprintf("%d tp %s", ustack.UStackEventTransportDeleted, tp.name)]
		if a-d != b2i(reg) {
			h.Fail("change-lost", "transport %d: %d additions and %d deletions were announced, registered: %v", i, a, d, reg)
		}
		if tpLast[i] == 1 && !reg || tpLast[i] == 2 && reg {
			h.Fail("change-lost", "transport %d: the last call was an addition: %v, but it is registered: %v", i, tpLast[i] == 1, reg)
		}
		if tp.running != reg {
			h.Fail("wrong-state", "transport %d is registered: %v, but running: %v", i, reg, tp.running)
		}
	}
	if len(regE) > nEP || len(regT) > nTP {
		h.Fail("bad-registry", "%d endpoints and %d transports are registered", len(regE), len(regT))
	}
}

// c16tp is a transport that only records whether it runs.
type c16tp struct {
	memTransport
	h       *H
	running bool
	stop    chan bool
}

func (t *c16tp) GetName() string                                { return shared("t", t.name) }
func (t *c16tp) SetOption(string, interface{}) ustack.Transport { return t }
func (t *c16tp) ForServer(bool) ustack.Transport                { return t }
func (t *c16tp) SetAddress(string) ustack.Transport             { return t }
func (t *c16tp) Run() ustack.Transport {
	zzsim.S(-84)
	if !t.running {
		t.running = true
		t.stop = make(chan bool)
	}
	return t
}
func (t *c16tp) Stop() ustack.Transport {
	zzsim.S(-84)
	if t.running {
		t.running = false
		zzsim.Close(-84, t.stop)
	}
	return t
}
func (t *c16tp) NextConnection() ustack.TransportConnection {
	zzsim.Recv(-84, (<-chan bool)(t.stop))
	return nil
}
