package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

// Op is one operation or fault of a plan.
type Op struct {
	At  int64  `json:"at"` // microseconds of simulated time
	Who string `json:"who"`
	K   string `json:"k"`
	A   int    `json:"a,omitempty"`
	B   int    `json:"b,omitempty"`
	C   int    `json:"c,omitempty"`
	S   string `json:"s,omitempty"`
}

func (o Op) String() string {
	return fmt.Sprintf("t=%dus %s %s a=%d b=%d c=%d %s", o.At, o.Who, o.K, o.A, o.B, o.C, o.S)
}

// Plan is everything a run depends on.
type Plan struct {
	Prop      string            `json:"property"`
	Index     int               `json:"index"`
	Seed      uint64            `json:"seed"`
	SchedSeed uint64            `json:"sched_seed"`
	Sched     zzsim.SchedConfig `json:"sched"`
	Net       snet.Config       `json:"net"`
	P         map[string]int    `json:"params"`
	Ops       []Op              `json:"ops"`
	Decisions []zzsim.Decision  `json:"decisions,omitempty"`
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

func (p *Plan) add(at int64, who, k string, abc ...int) {
	o := Op{At: at, Who: who, K: k}
	if len(abc) > 0 {
		o.A = abc[0]
	}
	if len(abc) > 1 {
		o.B = abc[1]
	}
	if len(abc) > 2 {
		o.C = abc[2]
	}
	p.Ops = append(p.Ops, o)
}

func (p *Plan) sort() {
	sort.SliceStable(p.Ops, func(i, j int) bool { return p.Ops[i].At < p.Ops[j].At })
}

// Scenario decides one property.
type Scenario struct {
	ID    string
	Gen   func(g *zzsim.Rng, p *Plan)
	Run   func(h *H)
	Runs  map[string]int // runs per tier
	Steps uint64         // step limit (0: default)
	Spin  uint64
	Min   map[string]int // parameter values tried by the minimiser
	Real  []string
	Stubs []string
}

var scenarios = map[string]*Scenario{}

func register(s *Scenario) { scenarios[s.ID] = s }

// genPlan builds the plan of one seed.
func genPlan(prop string, base uint64, index int) *Plan {
	sc := scenarios[prop]
	seed := zzsim.Mix(base, prop, index)
	g := zzsim.NewRng(zzsim.Mix(seed, "plan"))
	p := &Plan{Prop: prop, Index: index, Seed: seed, SchedSeed: seed, P: map[string]int{}}
	p.Sched = genSched(g)
	p.Net = genNet(g)
	sc.Gen(g, p)
	p.sort()
	return p
}

func genSched(g *zzsim.Rng) zzsim.SchedConfig {
	c := zzsim.SchedConfig{StepNanos: []int64{20, 100, 1000}[g.Intn(3)]}
	switch x := g.Intn(20); {
	case x < 2:
		c.Strategy = zzsim.StratBlock
	case x < 9:
		c.Strategy = zzsim.StratRandom
		c.P = []float64{0.003, 0.01, 0.03, 0.1, 0.3}[g.Intn(5)]
	case x < 13:
		c.Strategy = zzsim.StratSync
		c.P = []float64{0.05, 0.2, 0.5}[g.Intn(3)]
	default:
		c.Strategy = zzsim.StratPCT
		c.D = g.Range(1, 12)
		c.Len = []int{1000, 5000, 20000, 60000}[g.Intn(4)]
	}
	return c
}

func genNet(g *zzsim.Rng) snet.Config {
	c := snet.Config{Window: []int{65536, 65536, 4096, 700, 64}[g.Intn(5)]}
	switch g.Intn(4) {
	case 0:
		c.MinDelay, c.MaxDelay = 1000, 1000
	case 1:
		c.MinDelay, c.MaxDelay = 20000, 300000
	case 2:
		c.MinDelay, c.MaxDelay = 100000, 20000000
	case 3:
		c.MinDelay, c.MaxDelay = 1000000, 2000000
	}
	switch g.Intn(6) {
	case 0:
		c.SegMin, c.SegMax = 1, 1
	case 1:
		c.SegMin, c.SegMax = 1, 6
	case 2:
		c.SegMin, c.SegMax = 1, 40
	case 3:
		c.SegMin, c.SegMax = 1, 600
	case 4:
		c.SegMin, c.SegMax = 65536, 65536
	case 5:
		c.SegMin, c.SegMax = 1, 3000
	}
	if g.Intn(5) == 0 {
		c.ShortRd = []int{1, 3, 17, 200}[g.Intn(4)]
	}
	return c
}

// tame keeps the number of segments and reads of a run affordable when it moves
// large messages.
func tame(g *zzsim.Rng, p *Plan, size int) {
	if size <= 500 {
		return
	}
	lo := size / 50
	if p.Net.ShortRd > 0 && p.Net.ShortRd < lo {
		p.Net.ShortRd = lo + g.Intn(200)
	}
	if p.Net.SegMax < lo {
		p.Net.SegMax = lo + g.Intn(lo)
	}
}

// Result of one run.
type Result struct {
	Fail  *zzsim.Failure
	World *zzsim.World
}

func runPlan(p *Plan, verbose bool) *Result {
	sc := scenarios[p.Prop]
	resetPackages()
	salt = uint32(p.Seed*2654435761) >> 3
	o := zzsim.Options{Seed: p.Seed, SchedSeed: p.SchedSeed, Sched: p.Sched, Replay: p.Decisions, Verbose: verbose,
		MaxSteps: sc.Steps, MaxSpin: sc.Spin}
	if o.MaxSteps == 0 {
		o.MaxSteps = 8000000
	}
	if p.P["lull"] > 0 || p.P["n"] > 5 || p.P["clients"] > 5 {
		o.MaxSteps *= 4 // much to do, or much time to pass
	}
	if o.MaxSpin == 0 {
		o.MaxSpin = 1000000
	}
	var h *H
	w := zzsim.Run(o, "main", func() {
		snet.N().Cfg = p.Net
		h = newH(p)
		sc.Run(h)
	})
	return &Result{w.Fail, w}
}

// traceOf turns a failing plan into one whose schedule is an explicit list of
// decisions.
func traceOf(p *Plan, w *zzsim.World) *Plan {
	q := p.clone()
	q.Sched.Strategy = zzsim.StratTrace
	q.Decisions = append([]zzsim.Decision(nil), w.Trace...)
	return q
}

func sameFailure(a, b *zzsim.Failure) bool {
	if a == nil || b == nil {
		return false
	}
	return a.Class == b.Class && failKey(a) == failKey(b)
}

// failKey groups failures: the class, and for crashes the place.
func failKey(f *zzsim.Failure) string {
	if f.Class == "crash" {
		if i := strings.LastIndex(f.Detail, " in "); i >= 0 {
			return "crash" + f.Detail[i:]
		}
	}
	return f.Class
}
