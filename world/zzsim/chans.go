package zzsim

import "unsafe"

// Channel operations of the code under test. Buffered data live in the real
// channel; waiting senders and receivers are kept here, FIFO, as in the Go
// runtime, so that only the scheduler decides who runs.

type sel struct {
	t    *Task
	done bool
	idx  int
}

type sudog struct {
	s   *sel
	idx int
	op  interface{}
}

type hchan struct{ recvq, sendq []*sudog }

func hc(p unsafe.Pointer, create bool) *hchan {
	h := w.chans[p]
	if h == nil && create {
		h = &hchan{}
		w.chans[p] = h
	}
	return h
}

func pop(q *[]*sudog) *sudog {
	for len(*q) > 0 {
		s := (*q)[0]
		(*q)[0] = nil
		*q = (*q)[1:]
		if !s.s.done {
			return s
		}
	}
	return nil
}

func (s *sudog) fire() {
	s.s.done = true
	s.s.idx = s.idx
	w.makeRunnable(s.s.t)
}

func unqueue(q []*sudog, s *sel) []*sudog {
	n := q[:0]
	for _, x := range q {
		if x.s != s {
			n = append(n, x)
		}
	}
	for i := len(n); i < len(q); i++ {
		q[i] = nil
	}
	return n
}

// Case is one communication clause.
type Case interface {
	ptr() unsafe.Pointer
	try() bool
	enqueue(s *sudog)
	after()
}

// RecvOp is a receive.
type RecvOp[T any] struct {
	ch <-chan T
	V  T
	OK bool
}

// SendOp is a send.
type SendOp[T any] struct {
	ch       chan<- T
	v        T
	wasClose bool
}

func (r *RecvOp[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&r.ch)) }
func (r *SendOp[T]) ptr() unsafe.Pointer { return *(*unsafe.Pointer)(unsafe.Pointer(&r.ch)) }

func (r *RecvOp[T]) try() bool {
	if r.ch == nil {
		return false
	}
	select {
	case v, ok := <-r.ch:
		r.V, r.OK = v, ok
		if ok {
			if h := hc(r.ptr(), false); h != nil {
				if s := pop(&h.sendq); s != nil {
					s.op.(*SendOp[T]).push()
					s.fire()
				}
			}
		}
		return true
	default:
	}
	if h := hc(r.ptr(), false); h != nil {
		if s := pop(&h.sendq); s != nil {
			r.V, r.OK = s.op.(*SendOp[T]).v, true
			s.fire()
			return true
		}
	}
	return false
}

func (r *SendOp[T]) push() {
	select {
	case r.ch <- r.v:
	default:
		panic("zzsim: buffer refill failed")
	}
}

func (r *SendOp[T]) try() bool {
	if r.ch == nil {
		return false
	}
	if h := hc(r.ptr(), false); h != nil {
		if s := pop(&h.recvq); s != nil {
			o := s.op.(*RecvOp[T])
			o.V, o.OK = r.v, true
			s.fire()
			return true
		}
	}
	select {
	case r.ch <- r.v: // panics on a closed channel, as it must
		return true
	default:
	}
	return false
}

func (r *RecvOp[T]) enqueue(s *sudog) {
	if r.ch != nil {
		h := hc(r.ptr(), true)
		h.recvq = append(h.recvq, s)
	}
}

func (r *SendOp[T]) enqueue(s *sudog) {
	if r.ch != nil {
		h := hc(r.ptr(), true)
		h.sendq = append(h.sendq, s)
	}
}

func (r *RecvOp[T]) after() {}
func (r *SendOp[T]) after() {
	if r.wasClose {
		panic("send on closed channel")
	}
}

// foreign support: a receive on a channel that uninstrumented code closed or filled.
func (r *RecvOp[T]) poll() bool {
	if r.ch == nil {
		return false
	}
	select {
	case v, ok := <-r.ch:
		r.V, r.OK = v, ok
		return true
	default:
		return false
	}
}

type poller interface{ poll() bool }

func (w *World) pollForeign() {
	// deterministic order: by task id
	for _, t := range w.tasks {
		if t.done || t.killed || t.sel == nil || t.sel.done {
			continue
		}
		for _, h := range w.chansOf(t) {
			for _, s := range h.recvq {
				if s.s == t.sel && !s.s.done && s.op.(poller).poll() {
					s.fire()
				}
			}
		}
	}
}

func (w *World) chansOf(t *Task) (out []*hchan) {
	for _, c := range t.sel2 {
		if h := w.chans[c.ptr()]; h != nil {
			out = append(out, h)
		}
	}
	return
}

// Select performs one of the cases; -1 means the default clause.
func Select(site int32, hasDefault bool, cases ...Case) int {
	t := active()
	if t == nil {
		panic("zzsim: channel operation outside a simulated run")
	}
	if t.killed {
		if hasDefault || len(cases) == 0 {
			return -1
		}
		return 0
	}
	S(site)
	if len(cases) == 1 {
		if cases[0].try() {
			return 0
		}
	} else if len(cases) > 1 {
		for _, i := range w.env.Perm(len(cases)) {
			if cases[i].try() {
				return i
			}
		}
	}
	if hasDefault {
		return -1
	}
	s := &sel{t: t}
	t.sel = s
	t.sel2 = cases
	for i, c := range cases {
		c.enqueue(&sudog{s: s, idx: i, op: c})
	}
	t.what = "chan"
	w.dispatch(t)
	t.what = ""
	t.sel = nil
	t.sel2 = nil
	for _, c := range cases {
		p := c.ptr()
		if h := w.chans[p]; h != nil {
			h.recvq = unqueue(h.recvq, s)
			h.sendq = unqueue(h.sendq, s)
			if len(h.recvq) == 0 && len(h.sendq) == 0 {
				delete(w.chans, p)
			}
		}
	}
	cases[s.idx].after()
	return s.idx
}

// NewRecv makes a receive case.
func NewRecv[T any](ch <-chan T) *RecvOp[T] { return &RecvOp[T]{ch: ch} }

// Sender carries the element type so that values convert by assignment.
type Sender[T any] struct{ ch chan<- T }

// To starts a send.
func To[T any](ch chan<- T) Sender[T] { return Sender[T]{ch} }

// Case makes a send case.
func (s Sender[T]) Case(v T) *SendOp[T] { return &SendOp[T]{ch: s.ch, v: v} }

// Send sends, blocking.
func (s Sender[T]) Send(site int32, v T) { Select(site, false, s.Case(v)) }

// Recv receives one value.
func Recv[T any](site int32, ch <-chan T) T {
	r := &RecvOp[T]{ch: ch}
	Select(site, false, r)
	return r.V
}

// Recv2 receives with the ok flag.
func Recv2[T any](site int32, ch <-chan T) (T, bool) {
	r := &RecvOp[T]{ch: ch}
	Select(site, false, r)
	return r.V, r.OK
}

// TryRecv is a non-blocking receive for the harness.
func TryRecv[T any](ch <-chan T) (v T, ok bool) {
	r := &RecvOp[T]{ch: ch}
	if Select(-2, true, r) == 0 {
		return r.V, r.OK
	}
	return v, false
}

// Close closes a channel.
func Close[T any](site int32, ch chan<- T) {
	t := active()
	if t == nil {
		close(ch)
		return
	}
	if t.killed {
		return
	}
	S(site)
	CloseNow(ch)
}

// CloseNow closes a channel from simulator context (timers).
func CloseNow[T any](ch chan<- T) {
	close(ch)
	p := *(*unsafe.Pointer)(unsafe.Pointer(&ch))
	h := w.chans[p]
	if h == nil {
		return
	}
	for {
		s := pop(&h.recvq)
		if s == nil {
			break
		}
		o := s.op.(*RecvOp[T])
		var z T
		o.V, o.OK = z, false
		s.fire()
	}
	for {
		s := pop(&h.sendq)
		if s == nil {
			break
		}
		s.op.(*SendOp[T]).wasClose = true
		s.fire()
	}
}

// BlockForever is `select {}`.
func BlockForever(site int32) {
	Select(site, false)
}

// Push is a non-blocking send from simulator context (timers); it drops the
// value if nobody can take it.
func Push[T any](ch chan T, v T) {
	(&SendOp[T]{ch: ch, v: v}).try()
}

// Steps returns the number of scheduling steps so far.
func Steps() int64 { return int64(w.steps) }
