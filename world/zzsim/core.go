// Package zzsim is the deterministic simulator: goroutines of the code under
// test are real goroutines, but exactly one runs at a time and the seeded
// scheduler here decides which, at every scheduling point. Time is simulated.
package zzsim

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"
)

// ---------------------------------------------------------------- PRNG

// Rng is splitmix64: stable across Go versions and platforms.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{seed} }

func (r *Rng) Uint64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.Uint64() % uint64(n))
}

// Range returns a value in [lo,hi].
func (r *Rng) Range(lo, hi int) int { return lo + r.Intn(hi-lo+1) }
func (r *Rng) Float() float64       { return float64(r.Uint64()>>11) / (1 << 53) }
func (r *Rng) Bool(p float64) bool  { return r.Float() < p }
func (r *Rng) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Mix hashes numbers and strings into a seed.
func Mix(xs ...interface{}) uint64 {
	h := uint64(1469598103934665603)
	add := func(b byte) { h = (h ^ uint64(b)) * 1099511628211 }
	for _, x := range xs {
		switch v := x.(type) {
		case string:
			for i := 0; i < len(v); i++ {
				add(v[i])
			}
		case int:
			for i := 0; i < 8; i++ {
				add(byte(uint64(v) >> (8 * uint(i))))
			}
		case uint64:
			for i := 0; i < 8; i++ {
				add(byte(v >> (8 * uint(i))))
			}
		default:
			panic("Mix: bad type")
		}
		add(0xff)
	}
	return NewRng(h).Uint64()
}

// ---------------------------------------------------------------- types

type Node struct {
	Name    string
	Dead    bool
	Paused  bool
	Crashed string // reason, if the simulated process died by itself
	parked  []*Task
}

type Task struct {
	ID       int
	Name     string
	Node     *Node
	wake     chan struct{}
	exited   chan struct{}
	killed   bool
	byKiller bool
	runnable bool
	done     bool
	prio     uint64
	sel      *sel
	sel2     []Case
	key      unsafe.Pointer
	what     string
	lastSite int32
	timer    *timer
	spin     uint64 // steps since it blocked or time advanced
	spinAdv  uint64
}

type timer struct {
	at   int64
	seq  uint64
	fn   func()
	idx  int
	dead bool
}

type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x interface{}) { t := x.(*timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() interface{} {
	o := *h
	n := len(o)
	t := o[n-1]
	o[n-1] = nil
	*h = o[:n-1]
	t.idx = -1
	return t
}

// Strategy names.
const (
	StratTrace  = "trace"  // only the recorded non-default decisions
	StratBlock  = "block"  // switch only when the running task blocks
	StratRandom = "random" // preempt with probability P at each point
	StratPCT    = "pct"    // random priorities with D change points
	StratSync   = "sync"   // preempt with probability P at sync operations, rarely elsewhere
)

type SchedConfig struct {
	Strategy  string  `json:"strategy"`
	P         float64 `json:"p,omitempty"`
	D         int     `json:"d,omitempty"`
	Len       int     `json:"len,omitempty"`
	StepNanos int64   `json:"step_nanos"`
}

// Decision is one non-default scheduling decision: at scheduling step Step the
// candidate number Pick was chosen.
type Decision struct {
	Step uint64 `json:"s"`
	Pick int    `json:"p"`
}

type World struct {
	Seed   uint64
	now    int64
	seq    uint64
	timers timerHeap
	cur    *Task
	tasks  []*Task
	runq   []*Task
	waitq  map[unsafe.Pointer][]*Task
	chans  map[unsafe.Pointer]*hchan
	nextID int

	cfg        SchedConfig
	sched      *Rng
	env        *Rng
	countdown  int64
	must       bool
	steps      uint64
	advances   uint64
	Trace      []Decision
	replay     map[uint64]int
	changeAt   map[uint64]bool
	lowPrio    uint64
	SwitchHash uint64
	EventHash  uint64
	Switches   uint64
	Preempts   uint64

	keyIDs  map[interface{}]int
	mapBusy map[unsafe.Pointer]*Task

	finish   chan struct{}
	finished bool
	ending   bool
	Fail     *Failure
	Verbose  bool
	Log      []string
	Pairs    map[uint64]struct{}
	Stats    map[string]int64
	MaxSteps uint64
	MaxSpin  uint64
	OnCrash  func(n *Node, why, stack string)
	Foreign  bool
	Net      interface{}
	FS       interface{}
	curNode  *Node
	ClockOff int64
}

// Failure is a violation found in a run.
type Failure struct {
	Class  string `json:"class"`
	Detail string `json:"detail"`
	AtNano int64  `json:"at_ns"`
	Step   uint64 `json:"step"`
}

var w *World

// W returns the running world (nil outside a run).
func W() *World { return w }

func active() *Task {
	if w == nil {
		return nil
	}
	return w.cur
}

// ---------------------------------------------------------------- run

type Options struct {
	Seed      uint64
	SchedSeed uint64 // 0: Seed
	Sched     SchedConfig
	Replay    []Decision // used when Sched.Strategy == StratTrace
	Verbose   bool
	MaxSteps  uint64
	MaxSpin   uint64
	Foreign   bool
}

// Run executes main as the first task of a fresh world and returns the world
// after everything has been torn down.
func Run(o Options, mainNode string, main func()) *World {
	if w != nil {
		panic("zzsim: nested Run")
	}
	x := &World{
		Seed: o.Seed, cfg: o.Sched, Verbose: o.Verbose,
		waitq: map[unsafe.Pointer][]*Task{}, chans: map[unsafe.Pointer]*hchan{},
		keyIDs: map[interface{}]int{}, mapBusy: map[unsafe.Pointer]*Task{},
		finish: make(chan struct{}, 1), Pairs: map[uint64]struct{}{}, Stats: map[string]int64{},
		MaxSteps: o.MaxSteps, MaxSpin: o.MaxSpin, Foreign: o.Foreign,
		SwitchHash: 14695981039346656037, EventHash: 14695981039346656037,
	}
	if x.MaxSteps == 0 {
		x.MaxSteps = 20000000
	}
	if x.MaxSpin == 0 {
		x.MaxSpin = 1000000
	}
	ss := o.SchedSeed
	if ss == 0 {
		ss = o.Seed
	}
	x.sched = NewRng(Mix(ss, "sched"))
	x.env = NewRng(Mix(o.Seed, "env"))
	x.changeAt = map[uint64]bool{}
	x.lowPrio = 1 << 20
	if x.cfg.Strategy == StratTrace {
		x.replay = map[uint64]int{}
		for _, d := range o.Replay {
			x.replay[d.Step] = d.Pick
		}
	}
	if x.cfg.Strategy == StratPCT {
		l := x.cfg.Len
		if l <= 0 {
			l = 20000
		}
		for i := 0; i < x.cfg.D; i++ {
			x.changeAt[uint64(x.sched.Intn(l))] = true
		}
	}
	x.resetCountdown()
	w = x
	n := &Node{Name: mainNode}
	t := x.newTask("main", n, func() { main(); w.finishNow() })
	x.removeRunnable(t)
	x.cur = t
	t.wake <- struct{}{}
	<-x.finish
	// Teardown: no task is running now.
	x.ending = true
	for _, t := range x.tasks {
		if !t.done {
			x.kill(t)
		}
	}
	w = nil
	return x
}

func (w *World) finishNow() {
	if !w.finished {
		w.finished = true
		w.finish <- struct{}{}
	}
	t := w.cur
	for {
		<-t.wake
		if t.killed {
			runtime.Goexit()
		}
	}
}

// Violation records a failure and ends the run (does not return when called
// from a task).
func Violation(class, format string, args ...interface{}) {
	if w == nil || w.ending {
		return
	}
	if w.Fail == nil {
		w.Fail = &Failure{Class: class, Detail: fmt.Sprintf(format, args...), AtNano: w.now, Step: w.steps}
		Logf("VIOLATION %s: %s", class, w.Fail.Detail)
	}
	if w.cur != nil && !w.cur.killed {
		w.finishNow()
	}
}

func (w *World) newTask(name string, n *Node, fn func()) *Task {
	t := &Task{ID: w.nextID, Name: name, Node: n, wake: make(chan struct{}, 1), exited: make(chan struct{}, 1)}
	w.nextID++
	t.prio = w.sched.Uint64()>>1 | 1<<40
	if w.cfg.Strategy == StratTrace {
		t.prio = 0
	}
	w.tasks = append(w.tasks, t)
	w.makeRunnable(t)
	go w.taskMain(t, fn)
	return t
}

func (w *World) taskMain(t *Task, fn func()) {
	defer func() {
		r := recover()
		if r != nil && !t.killed {
			stack := string(debug.Stack())
			why := fmt.Sprintf("panic: %v", r)
			t.done = true
			w.crash(t, why, stack)
		}
		t.done = true
		if t.byKiller {
			t.exited <- struct{}{}
			return
		}
		if w.finished {
			return
		}
		w.dispatchFrom(t)
	}()
	<-t.wake
	if t.killed {
		runtime.Goexit()
	}
	fn()
}

// crash: the simulated process running t died.
func (w *World) crash(t *Task, why, stack string) {
	if w.ending || w.finished {
		return
	}
	frame := topFrame(stack)
	Logf("CRASH node=%s task=%s %s at %s", t.Node.Name, t.Name, why, frame)
	if w.Verbose {
		w.Log = append(w.Log, stack)
	}
	if t.Node.Crashed == "" {
		t.Node.Crashed = why
	}
	if w.OnCrash != nil {
		w.OnCrash(t.Node, why, stack)
		return
	}
	if w.Fail == nil {
		w.Fail = &Failure{Class: "crash", Detail: why + " in " + frame, AtNano: w.now, Step: w.steps}
	}
	if !w.finished {
		w.finished = true
		w.finish <- struct{}{}
	}
}

func topFrame(stack string) string {
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "panic(") || strings.HasPrefix(l, "runtime.gopanic") {
			seen = true
			continue
		}
		if seen && strings.HasPrefix(l, "ustack.") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	for _, l := range lines {
		if strings.HasPrefix(l, "ustack.") {
			if i := strings.LastIndex(l, "("); i > 0 {
				l = l[:i]
			}
			return l
		}
	}
	return "?"
}

// ProcessExit models os.Exit / log.Fatal in the code under test.
func ProcessExit(why string) {
	t := active()
	if t == nil || t.killed {
		return
	}
	w.crash(t, why, string(debug.Stack()))
	if w.finished {
		for {
			<-t.wake
			if t.killed {
				runtime.Goexit()
			}
		}
	}
	runtime.Goexit()
}

// kill unwinds a parked task. Must be called while t is not running.
func (w *World) kill(t *Task) {
	if t.done || t.killed {
		return
	}
	t.killed = true
	t.byKiller = true
	if t.sel != nil {
		t.sel.done = true
	}
	w.removeRunnable(t)
	w.unwait(t)
	if t.timer != nil {
		w.cancel(t.timer)
	}
	old := w.cur
	w.cur = t
	t.wake <- struct{}{}
	<-t.exited
	w.cur = old
}

// KillNode stops every task of a node (process death).
func KillNode(n *Node) {
	if w == nil || n.Dead {
		return
	}
	n.Dead = true
	n.parked = nil
	self := false
	for _, t := range append([]*Task(nil), w.tasks...) {
		if t.Node != n || t.done {
			continue
		}
		if t == w.cur {
			self = true
			continue
		}
		w.kill(t)
	}
	if self {
		t := w.cur
		t.killed = true
		if t.sel != nil {
			t.sel.done = true
		}
		w.removeRunnable(t)
		w.unwait(t)
		if t.timer != nil {
			w.cancel(t.timer)
		}
		runtime.Goexit()
	}
}

// ---------------------------------------------------------------- scheduling

func (w *World) resetCountdown() {
	w.countdown = 1 << 60
	switch w.cfg.Strategy {
	case StratRandom:
		w.countdown = w.geom(w.cfg.P)
	case StratSync:
		w.countdown = w.geom(w.cfg.P / 40)
	case StratPCT, StratTrace:
		w.countdown = 1 // look at every step
	}
}

func (w *World) geom(p float64) int64 {
	if p <= 0 {
		return 1 << 60
	}
	if p >= 1 {
		return 1
	}
	n := int64(1)
	for n < 1000000 && !w.sched.Bool(p) {
		n++
		if p < 0.01 && n > 20 {
			// coarse tail
			n += int64(w.sched.Intn(int(2/p) + 1))
			break
		}
	}
	return n
}

// Y is the scheduling point put before statements of the code under test.
func Y(site int32) {
	if w == nil {
		return
	}
	t := w.cur
	if t == nil || t.killed {
		return
	}
	w.step(t, site, false)
}

// S is a scheduling point at a synchronisation operation.
func S(site int32) {
	if w == nil {
		return
	}
	t := w.cur
	if t == nil || t.killed {
		return
	}
	w.step(t, site, true)
}

func (w *World) step(t *Task, site int32, isSync bool) {
	t.lastSite = site
	w.steps++
	if t.spinAdv != w.advances {
		t.spinAdv, t.spin = w.advances, 0
	}
	t.spin++
	if t.spin > w.MaxSpin {
		Violation("spin", "task %s (node %s) has run %d steps without blocking", t.Name, t.Node.Name, t.spin)
	}
	if w.steps > w.MaxSteps {
		Violation("runaway", "more than %d scheduling steps", w.MaxSteps)
	}
	w.now += w.cfg.StepNanos
	if len(w.timers) > 0 && w.timers[0].at <= w.now {
		w.fireDue()
	}
	w.countdown--
	if w.countdown > 0 && !w.must && !(isSync && w.cfg.Strategy == StratSync) {
		return
	}
	w.decide(t, isSync)
}

// decide is called while t could continue.
func (w *World) decide(t *Task, isSync bool) {
	if t.killed {
		runtime.Goexit()
	}
	blocked := t.Node.Paused
	if blocked {
		w.must = false
		t.Node.parked = append(t.Node.parked, t)
		w.dispatch(t)
		return
	}
	preempt := false
	switch w.cfg.Strategy {
	case StratRandom:
		if w.countdown <= 0 {
			preempt = true
			w.countdown = w.geom(w.cfg.P)
		}
	case StratSync:
		if w.countdown <= 0 {
			preempt = true
			w.countdown = w.geom(w.cfg.P / 40)
		} else if isSync && w.sched.Bool(w.cfg.P) {
			preempt = true
		}
	case StratPCT:
		w.countdown = 1
		change := w.changeAt[w.steps]
		if !w.must && !change {
			return
		}
		if change {
			w.lowPrio--
			t.prio = w.lowPrio
		}
		best := t
		bi := -1
		for i, c := range w.runq {
			if c.prio > best.prio {
				best, bi = c, i
			}
		}
		w.must = false
		if bi >= 0 {
			w.Trace = append(w.Trace, Decision{w.steps, bi + 1})
			w.Preempts++
			w.makeRunnable(t)
			w.switchTo(t, best)
		}
		return
	case StratTrace:
		w.countdown = 1
		w.must = false
		p, ok := w.replay[w.steps]
		if !ok || p == 0 {
			return
		}
		if p > len(w.runq) {
			if len(w.runq) == 0 {
				return
			}
			p = (p-1)%len(w.runq) + 1
		}
		next := w.runq[p-1]
		w.Preempts++
		w.makeRunnable(t)
		w.switchTo(t, next)
		return
	}
	w.must = false
	if !preempt || len(w.runq) == 0 {
		return
	}
	i := w.sched.Intn(len(w.runq))
	next := w.runq[i]
	w.Trace = append(w.Trace, Decision{w.steps, i + 1})
	w.Preempts++
	w.makeRunnable(t)
	w.switchTo(t, next)
}

// switchTo hands control from t (already queued or blocked) to next and parks t.
func (w *World) switchTo(t, next *Task) {
	w.note(t, next)
	w.removeRunnable(next)
	w.cur = next
	next.wake <- struct{}{}
	<-t.wake
	if t.killed {
		runtime.Goexit()
	}
}

func (w *World) note(t, next *Task) {
	w.Switches++
	h := w.SwitchHash
	h = (h ^ uint64(t.ID)) * 1099511628211
	h = (h ^ uint64(uint32(t.lastSite))) * 1099511628211
	h = (h ^ uint64(next.ID)) * 1099511628211
	w.SwitchHash = h
	w.Pairs[uint64(uint32(t.lastSite))<<32|uint64(uint32(next.lastSite))] = struct{}{}
	if w.Verbose {
		w.Log = append(w.Log, fmt.Sprintf("%12d step %d: switch %s#%d(site %d) -> %s#%d(site %d)", w.now, w.steps, t.Name, t.ID, t.lastSite, next.Name, next.ID, next.lastSite))
	}
}

// pickNext chooses the next task when the current one cannot continue. It
// advances simulated time when nothing is runnable.
func (w *World) pickNext() *Task {
	polled := false
	for {
		if len(w.runq) > 0 {
			i := 0
			w.steps++
			switch w.cfg.Strategy {
			case StratTrace:
				i = w.replay[w.steps]
				if i >= len(w.runq) {
					i = i % len(w.runq)
				}
			case StratPCT:
				for j := range w.runq {
					if w.runq[j].prio > w.runq[i].prio {
						i = j
					}
				}
			default:
				i = w.sched.Intn(len(w.runq))
			}
			if i != 0 {
				w.Trace = append(w.Trace, Decision{w.steps, i})
			}
			return w.runq[i]
		}
		if w.Foreign && !polled {
			polled = true
			w.pollForeign()
			continue
		}
		if len(w.timers) == 0 {
			return nil
		}
		if w.timers[0].at > w.now {
			w.now = w.timers[0].at
			w.advances++
		}
		w.fireDue()
		polled = false
	}
}

// dispatch parks t (which is blocked) and runs something else.
func (w *World) dispatch(t *Task) {
	next := w.pickNext()
	if next == nil {
		w.stuck()
		<-t.wake
		runtime.Goexit()
	}
	if next == t {
		w.removeRunnable(t)
		return
	}
	w.switchTo(t, next)
}

// dispatchFrom is called by an exiting task.
func (w *World) dispatchFrom(t *Task) {
	next := w.pickNext()
	if next == nil {
		w.stuck()
		return
	}
	w.note(t, next)
	w.removeRunnable(next)
	w.cur = next
	next.wake <- struct{}{}
}

func (w *World) stuck() {
	if w.Fail == nil {
		w.Fail = &Failure{Class: "sim-stuck", Detail: "no runnable task and no timer", AtNano: w.now, Step: w.steps}
	}
	if !w.finished {
		w.finished = true
		w.finish <- struct{}{}
	}
}

func (w *World) makeRunnable(t *Task) {
	if t.runnable || t.done || t.killed {
		return
	}
	if t.Node.Paused {
		for _, p := range t.Node.parked {
			if p == t {
				return
			}
		}
		t.Node.parked = append(t.Node.parked, t)
		return
	}
	t.runnable = true
	w.runq = append(w.runq, t)
	if w.cfg.Strategy == StratPCT {
		w.must = true
	}
}

func (w *World) removeRunnable(t *Task) {
	if !t.runnable {
		for i, p := range t.Node.parked {
			if p == t {
				t.Node.parked = append(t.Node.parked[:i], t.Node.parked[i+1:]...)
				break
			}
		}
		return
	}
	t.runnable = false
	t.spin = 0
	for i, c := range w.runq {
		if c == t {
			copy(w.runq[i:], w.runq[i+1:])
			w.runq[len(w.runq)-1] = nil
			w.runq = w.runq[:len(w.runq)-1]
			return
		}
	}
}

// ---------------------------------------------------------------- nodes

// NewNode makes a simulated process.
func NewNode(name string) *Node { return &Node{Name: name} }

// PauseNode stops a node's tasks from running (a stalled process).
func PauseNode(n *Node) {
	if n.Paused || n.Dead {
		return
	}
	n.Paused = true
	for i := 0; i < len(w.runq); {
		t := w.runq[i]
		if t.Node == n {
			w.removeRunnable2(t)
			n.parked = append(n.parked, t)
			continue
		}
		i++
	}
	if w.cur != nil && w.cur.Node == n {
		w.must = true
	}
}

func (w *World) removeRunnable2(t *Task) {
	t.runnable = false
	for i, c := range w.runq {
		if c == t {
			copy(w.runq[i:], w.runq[i+1:])
			w.runq = w.runq[:len(w.runq)-1]
			return
		}
	}
}

// ResumeNode lets a paused node run again.
func ResumeNode(n *Node) {
	if !n.Paused {
		return
	}
	n.Paused = false
	p := n.parked
	n.parked = nil
	for _, t := range p {
		w.makeRunnable(t)
	}
}

// Self is the task that runs now; nil outside of one.
func Self() *Task {
	if w == nil {
		return nil
	}
	return w.cur
}

// CurNode returns the node of the running task.
func CurNode() *Node {
	if t := active(); t != nil {
		return t.Node
	}
	return nil
}

// ---------------------------------------------------------------- tasks

// Go starts a task on the current task's node.
func Go(site int32, name string, fn func()) {
	t := active()
	if t == nil {
		panic("zzsim: go statement outside a simulated run")
	}
	if t.killed {
		return
	}
	w.newTask(name, t.Node, fn)
	S(site)
}

// GoOn starts a task on a given node.
func GoOn(n *Node, name string, fn func()) *Task {
	return w.newTask(name, n, fn)
}

// Done reports whether the task has ended.
func (t *Task) Done() bool { return t.done }

// LiveTasks counts the unfinished tasks of a node.
func LiveTasks(n *Node) (c int) {
	for _, t := range w.tasks {
		if t.Node == n && !t.done {
			c++
		}
	}
	return
}

// TaskNames lists the unfinished tasks of a node with what they wait for.
func TaskNames(n *Node) (s []string) {
	for _, t := range w.tasks {
		if t.Node == n && !t.done {
			s = append(s, t.Name+":"+t.what)
		}
	}
	return
}

// block parks the current task until notify(key).
func block(key unsafe.Pointer, what string) {
	t := w.cur
	t.key = key
	t.what = what
	w.waitq[key] = append(w.waitq[key], t)
	w.dispatch(t)
	t.what = ""
}

func notify(key unsafe.Pointer) {
	q := w.waitq[key]
	if len(q) == 0 {
		return
	}
	delete(w.waitq, key)
	for _, t := range q {
		t.key = nil
		w.makeRunnable(t)
	}
}

func (w *World) unwait(t *Task) {
	if t.key == nil {
		return
	}
	q := w.waitq[t.key]
	for i, c := range q {
		if c == t {
			w.waitq[t.key] = append(q[:i:i], q[i+1:]...)
			break
		}
	}
	if len(w.waitq[t.key]) == 0 {
		delete(w.waitq, t.key)
	}
	t.key = nil
}

// Block parks the current task until Notify(key). Returns at once when the
// task is being torn down.
func Block(key unsafe.Pointer, what string) {
	t := active()
	if t == nil || t.killed {
		return
	}
	block(key, what)
}

// BlockUntil parks until Notify(key) or the simulated time at, whichever is first.
func BlockUntil(key unsafe.Pointer, at int64, what string) {
	t := active()
	if t == nil || t.killed {
		return
	}
	if at <= w.now {
		return
	}
	tm := w.at(at, func() {
		if t.key == key {
			w.unwait(t)
			w.makeRunnable(t)
		}
	})
	t.timer = tm
	block(key, what)
	t.timer = nil
	w.cancel(tm)
}

// Notify wakes everything blocked on key.
func Notify(key unsafe.Pointer) {
	if w != nil {
		notify(key)
	}
}

// Dying reports that the current task is being torn down.
func Dying() bool {
	t := active()
	return t == nil || t.killed
}

// ---------------------------------------------------------------- time

const base = int64(1700000000) * 1e9

// NowNano is simulated time since the start of the run.
func NowNano() int64 {
	if w == nil {
		return 0
	}
	return w.now
}

// Now is the simulated wall clock.
func Now() time.Time {
	if w == nil {
		return time.Unix(0, base)
	}
	return time.Unix(0, base+w.now)
}

func (w *World) at(at int64, fn func()) *timer {
	w.seq++
	t := &timer{at: at, seq: w.seq, fn: fn}
	heap.Push(&w.timers, t)
	return t
}

func (w *World) cancel(t *timer) bool {
	if t == nil || t.dead || t.idx < 0 {
		return false
	}
	heap.Remove(&w.timers, t.idx)
	t.dead = true
	return true
}

// At runs fn (which must not block) at simulated time at.
func At(at int64, fn func()) *timer {
	if at < w.now {
		at = w.now
	}
	return w.at(at, fn)
}

// After runs fn after d.
func After(d int64, fn func()) *timer { return At(w.now+d, fn) }

// Cancel stops a timer; reports whether it was pending.
func Cancel(t *timer) bool {
	if w == nil {
		return false
	}
	return w.cancel(t)
}

// Timer is the handle type of At/After.
type Timer = timer

func (w *World) fireDue() {
	for len(w.timers) > 0 && w.timers[0].at <= w.now {
		t := heap.Pop(&w.timers).(*timer)
		t.dead = true
		t.fn()
	}
}

// SleepNano blocks the current task for d simulated nanoseconds.
func SleepNano(d int64) {
	t := active()
	if t == nil || t.killed {
		return
	}
	S(-1)
	if d <= 0 {
		return
	}
	t.what = "sleep"
	tm := w.at(w.now+d, func() { t.timer = nil; w.makeRunnable(t) })
	t.timer = tm
	w.dispatch(t)
	t.what = ""
}

// Yield lets every other runnable task go first.
func Yield() { SleepNano(1) }

// ---------------------------------------------------------------- misc

// Env is the PRNG for environment choices made by the simulator itself.
func Env() *Rng { return w.env }

// Logf adds to the event log (and its hash); it never perturbs the run.
func Logf(format string, args ...interface{}) {
	if w == nil {
		return
	}
	s := fmt.Sprintf(format, args...)
	h := w.EventHash
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	h = (h ^ uint64(w.now)) * 1099511628211
	h = (h ^ w.steps) * 1099511628211
	w.EventHash = h
	if w.Verbose {
		name := "-"
		if w.cur != nil {
			name = fmt.Sprintf("%s/%s#%d", w.cur.Node.Name, w.cur.Name, w.cur.ID)
		}
		w.Log = append(w.Log, fmt.Sprintf("%12d step %d %s: %s", w.now, w.steps, name, s))
	}
}

// Count adds to a named statistic of the run.
func Count(name string, n int64) {
	if w != nil {
		w.Stats[name] += n
	}
}

// Steps returns the number of scheduling steps so far.
func (w *World) Steps() uint64 { return w.steps }

// NowN returns the simulated time.
func (w *World) NowN() int64 { return w.now }

// ReplaceSites rewrites "site N" in a log line.
func ReplaceSites(s string, name func(int32) string) string {
	var b strings.Builder
	for {
		i := strings.Index(s, "(site ")
		if i < 0 {
			break
		}
		j := strings.IndexByte(s[i:], ')')
		if j < 0 {
			break
		}
		var n int32
		fmt.Sscanf(s[i+6:i+j], "%d", &n)
		b.WriteString(s[:i])
		b.WriteString("(" + name(n) + ")")
		s = s[i+j+1:]
	}
	b.WriteString(s)
	return b.String()
}
