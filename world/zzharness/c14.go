package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"

	"ustack"
	"ustack/zzsim"
)

// C14: buffer and stack stream transfers conserve bytes under I/O faults.

func init() {
	register(&Scenario{ID: "C14", Gen: genC14, Run: runC14,
		Min: map[string]int{"from": 0, "hb": 0, "small": 0}})
}

func genC14(g *zzsim.Rng, p *Plan) {
	p.P["mode"] = g.Intn(2)
	if p.P["mode"] == 0 {
		p.P["cap"] = []int{1, 3, 8, 40, 200}[g.Intn(5)]
		p.P["res"] = g.Intn(p.P["cap"])
		p.P["from"] = g.Intn(3)
		p.P["size"] = []int{5, 60, 400}[g.Intn(3)]
		for i := g.Range(4, 60); i > 0; i-- {
			k := []string{"fill", "fill", "drain", "drain", "read", "write", "reset?", "compact", "copy", "snap", "head"}[g.Intn(11)]
			p.add(0, "b", k, g.Intn(6), g.Range(0, 50), g.Intn(8))
		}
		return
	}
	p.P["mtu"] = []int{16, 64, 300}[g.Intn(3)]
	p.P["frame"] = g.Intn(2)
	p.P["hb"] = g.Intn(3) / 2
	p.P["small"] = g.Intn(3)
	p.P["slowev"] = g.Intn(2)
	n := g.Range(1, 3)
	p.P["conns"] = n
	span := []int{10, 3000, 500000}[g.Intn(3)]
	for c := 0; c < n; c++ {
		who := fmt.Sprintf("k%d", c)
		for i := g.Range(0, 10); i > 0; i-- {
			// offer bytes: size, and how the next read ends
			p.add(int64(g.Intn(span)), who, "bytes", g.Range(1, 90), g.Range(1, 60))
		}
		// the last one: with an error or end of stream, or alone
		p.add(int64(span)+int64(g.Intn(span)), who, "end", g.Range(0, 90), g.Intn(3), g.Range(1, 60))
	}
}

var errFault = errors.New("injected fault")

// faultReader delivers a byte stream with faults chosen by the plan.
type faultReader struct {
	src  []byte
	pos  int
	kind int
	next int
	max  int
}

func (r *faultReader) Read(p []byte) (int, error) {
	zzsim.S(-60)
	k := r.kind
	r.kind = r.next // should it be asked again at once
	n := len(p)
	if n > r.max {
		n = r.max
	}
	if n > len(r.src)-r.pos {
		n = len(r.src) - r.pos
	}
	switch k {
	case 1: // nothing, error
		zzsim.Count("fault.read-error", 1)
		return 0, errFault
	case 2: // nothing at all
		zzsim.Count("fault.read-zero", 1)
		return 0, nil
	}
	copy(p, r.src[r.pos:r.pos+n])
	r.pos += n
	if n < len(p) {
		zzsim.Count("fault.short-read", 1)
	}
	switch k {
	case 3:
		zzsim.Count("fault.data-with-error", 1)
		return n, errFault
	case 4:
		zzsim.Count("fault.data-with-eof", 1)
		return n, io.EOF
	}
	if n == 0 && r.pos == len(r.src) {
		return 0, io.EOF
	}
	return n, nil
}

type faultWriter struct {
	got  []byte
	kind int
	next int // for further writes of the same call
	max  int
}

func (w *faultWriter) Write(p []byte) (int, error) {
	zzsim.S(-61)
	n := len(p)
	kind := w.kind
	w.kind = w.next
	if kind != 0 && n > w.max {
		n = w.max
	}
	if kind == 1 {
		zzsim.Count("fault.write-error", 1)
		return 0, errFault
	}
	w.got = append(w.got, p[:n]...)
	if n < len(p) || kind == 3 {
		zzsim.Count("fault.partial-write", 1)
		if kind == 4 {
			return n, nil // short count without an error
		}
		return n, errFault
	}
	return n, nil
}

func runC14buf(h *H) {
	size := h.p("size")
	src := payload(1, 7, size)
	for i := range src {
		src[i] = byte(i*131 + i>>8*7)
	}
	r := &faultReader{src: src}
	w := &faultWriter{}
	var ub *ustack.UBuf
	switch h.p("from") {
	case 1:
		ub = ustack.UBufFromWithHeadReserved(make([]byte, h.p("cap")), h.p("res"))
	case 2:
		ub = ustack.UBufFromWithHeadReserved(make([]byte, 0, h.p("cap")), h.p("res"))
	default:
		ub = ustack.UBufAllocWithHeadReserved(h.p("cap"), h.p("res"))
	}
	var out []byte  // everything that left the buffer, in order
	var want []byte // everything that entered it, in order
	check := func(when string) {
		h.Obs()
		if n := ub.ReadableLength(); n != len(want)-len(out) {
			h.Fail("bytes-not-conserved", "after %s: %d bytes went in, %d came out, but %d are in the buffer", when, len(want), len(out), n)
			return
		}
		if n := ub.ReadableLength(); n > 0 {
			b := make([]byte, n)
			if k, err := ub.Peek(b); k != n || err != nil || !bytes.Equal(b, want[len(out):]) {
				h.Fail("bytes-altered", "after %s: the buffer holds %x, expected %x", when, b, want[len(out):])
			}
		}
		if ub.HeadWritableLength()+ub.ReadableLength()+ub.TailWritableLength() != ub.Capacity() {
			h.Fail("space-not-conserved", "after %s: %d+%d+%d bytes of %d", when, ub.HeadWritableLength(), ub.ReadableLength(), ub.TailWritableLength(), ub.Capacity())
		}
	}
	drain := func(kind, max, next int) {
		w.kind, w.max, w.next = kind, max, []int{0, 0, 1, 3, 4, 5, 0, 0}[next&7]
		before := len(w.got)
		n, err := ub.WriteTo(w)
		if int(n) != len(w.got)-before {
			h.Fail("wrong-count", "draining returned %d, the writer accepted %d bytes", n, len(w.got)-before)
		}
		if !bytes.HasPrefix(want[len(out):], w.got[before:]) {
			h.Fail("bytes-altered", "drained %x, expected a prefix of %x", w.got[before:], want[len(out):])
			return
		}
		if kind == 0 && err != nil {
			h.Fail("wrong-error", "draining into a healthy writer failed: %v", err)
		}
		out = append(out, w.got[before:]...)
	}
	fillUp := func(kind, max, next int) {
		r.kind, r.max, r.next = kind, max, []int{0, 0, 1, 3, 4, 5, 0, 0}[next&7]
		before := r.pos
		tail := ub.TailWritableLength()
		n, err := ub.ReadFrom(r)
		if int(n) != r.pos-before {
			h.Fail("wrong-count", "filling returned %d, the reader delivered %d bytes", n, r.pos-before)
		}
		want = append(want, src[before:r.pos]...)
		if tail > 0 && (kind == 1 || kind == 3) && err == nil {
			h.Fail("error-hidden", "filling hides the reader's error")
		}
		_ = err
	}
	done := false
	h.Go("N", "buffer", func() {
		for _, o := range h.ops("b") {
			if n := ub.TailWritableLength(); n == 0 && ub.ReadableLength() == 0 {
				ub.Reset()
			}
			switch o.K {
			case "fill":
				fillUp(o.A, o.B, o.C)
			case "drain":
				drain(o.A, o.B, o.C)
			case "read":
				b := make([]byte, o.B)
				n, _ := ub.Read(b)
				if n > len(want)-len(out) || !bytes.Equal(b[:n], want[len(out):len(out)+n]) {
					h.Fail("bytes-altered", "read %x, expected %x", b[:n], want[len(out):])
					return
				}
				out = append(out, b[:n]...)
			case "write":
				b := payload(o.A, o.B, o.B)
				n, err := ub.Write(b)
				if n < len(b) && err == nil {
					h.Fail("error-hidden", "a partial write of %d of %d bytes reports no error", n, len(b))
				}
				want = append(want, b[:n]...)
			case "head":
				b := payload(o.A, o.B, o.B%6)
				if len(b) > 0 && ub.WriteHeadBytes(b) == nil {
					// it is read before everything else
					rest := append([]byte(nil), want[len(out):]...)
					want = append(append(want[:len(out)], b...), rest...)
				}
			case "reset?":
				if ub.ReadableLength() == 0 {
					ub.Reset()
				}
			case "snap":
				ub = ustack.UBufMakeSnapshot(ub, ustack.UBufSnapshotTypeCopyOnWrite-o.A%2+1)
				if ub == nil {
					return
				}
			case "compact": // as the stack does it: fill another buffer from this one
				nb := ustack.UBufAllocWithHeadReserved(h.p("cap")+o.B, h.p("res"))
				want0 := ub.ReadableLength()
				n, _ := nb.ReadFrom(ub)
				if int(n) != nb.ReadableLength() || nb.ReadableLength()+ub.ReadableLength() != want0 {
					h.Fail("bytes-not-conserved", "moving %d bytes between buffers: %d moved, %d left, %d arrived", want0, n, ub.ReadableLength(), nb.ReadableLength())
				}
				if ub.ReadableLength() == 0 {
					ub = nb
				} else { // no room for all of it: take what was moved out
					b := make([]byte, nb.ReadableLength())
					nb.Read(b)
					if !bytes.HasPrefix(want[len(out):], b) {
						h.Fail("bytes-altered", "moved %x, expected %x", b, want[len(out):])
					}
					out = append(out, b...)
				}
			case "copy":
				nb := ustack.UBufAlloc(500)
				k := int64(o.B)
				if k > int64(ub.ReadableLength()) {
					k = int64(ub.ReadableLength())
				}
				n, err := io.CopyN(nb, ub, k)
				if n != k || err != nil && k > 0 {
					h.Fail("wrong-count", "copying %d bytes of %d: %d %v", k, ub.ReadableLength(), n, err)
				}
				b := content(nb)
				if len(b) != int(k) || !bytes.HasPrefix(want[len(out):], b) {
					h.Fail("bytes-altered", "copied %x, expected %x", b, want[len(out):])
				}
				out = append(out, b...)
			}
			check(o.String())
		}
		// faults stop: everything gets through
		for i := 0; i < 3*size+100 && (r.pos < len(src) || ub.ReadableLength() > 0); i++ {
			if ub.ReadableLength() == 0 {
				ub.Reset()
			}
			fillUp(0, 1000, 0)
			check("fill")
			drain(0, 0, 0)
			check("drain")
		}
		h.Obs()
		if r.pos < len(src) || ub.ReadableLength() > 0 {
			h.Fail("no-progress", "%d of %d bytes could not be moved although the stream is healthy", len(src)-r.pos+ub.ReadableLength(), len(src))
		}
		if !bytes.Equal(out, want) {
			h.Fail("bytes-altered", "what came out is not what went in")
		}
		done = true
	})
	if !h.Wait(100*sec, func() bool { return done }) {
		h.Fail("blocked", "buffer operations do not end")
	}
}

// memConn is a connection of a transport of the application: its reads deliver
// data together with errors.
type memConn struct {
	h      *H
	n      int
	q      []memRead
	closed bool
	total  []byte // everything Read has returned
	ended  bool   // Read has returned an error
	after  int
}

type memRead struct {
	b   []byte
	max int
	err error
}

func (c *memConn) GetName() string                    { return fmt.Sprintf("mem%d", c.n) }
func (c *memConn) UseReference() bool                 { return false }
func (c *memConn) GetReference() (interface{}, error) { return nil, errFault }
func (c *memConn) SetReference(p interface{}) error   { return errFault }
func (c *memConn) Close()                             { c.closed = true }
func (c *memConn) Closed() bool                       { return c.closed }
func (c *memConn) Write(p []byte) (n int, err error)  { return len(p), nil }
func (c *memConn) Read(p []byte) (n int, err error) {
	if c.ended {
		c.after++
		return 0, io.EOF
	}
	c.h.Wait(1000*sec, func() bool { return len(c.q) > 0 || c.closed })
	if len(c.q) == 0 {
		return 0, errFault
	}
	if c.closed {
		return 0, errFault
	}
	r := &c.q[0]
	n = len(r.b)
	if n > len(p) {
		n = len(p)
	}
	if r.max > 0 && n > r.max {
		n = r.max
	}
	copy(p, r.b[:n])
	c.total = append(c.total, r.b[:n]...)
	r.b = r.b[n:]
	if len(r.b) == 0 {
		err = r.err
		c.q = c.q[1:]
		if err != nil {
			c.ended = true
			if n > 0 {
				zzsim.Count("fault.data-with-end", 1)
			} else {
				zzsim.Count("fault.end", 1)
			}
		}
	}
	zzsim.S(-62)
	return n, err
}

type memTransport struct {
	name  string
	conns chan ustack.TransportConnection
	opt   map[string]interface{}
}

func (t *memTransport) GetName() string { return t.name }
func (t *memTransport) SetOption(n string, v interface{}) ustack.Transport {
	t.opt[n] = v
	return t
}
func (t *memTransport) GetOption(n string) interface{}       { return t.opt[n] }
func (t *memTransport) ForServer(bool) ustack.Transport      { return t }
func (t *memTransport) SetAddress(a string) ustack.Transport { return t }
func (t *memTransport) GetAddress() string                   { return "" }
func (t *memTransport) Run() ustack.Transport                { return t }
func (t *memTransport) Stop() ustack.Transport               { return t }
func (t *memTransport) NextConnection() ustack.TransportConnection {
	return zzsim.Recv(-63, (<-chan ustack.TransportConnection)(t.conns))
}

func runC14(h *H) {
	if h.p("mode") == 0 {
		runC14buf(h)
		return
	}
	n := h.p("conns")
	s := h.newStk("S", h.p("mtu")).codec(codecBytes)
	if h.p("hb") == 1 {
		s.add(mkProc("filter"))
	}
	frame := h.p("frame") == 1
	if frame {
		s.add(ustack.NewFrameDecoder())
	}
	conns := make([]*memConn, n)
	byC := map[ustack.TransportConnection]*memConn{}
	expect := make([][]byte, n) // the bytes (or framed messages, concatenated) offered
	got := make([][]byte, n)
	closed := make([]int, n)
	ep := newEP("ep", 0, 2000)
	tp := &memTransport{name: "mem", conns: make(chan ustack.TransportConnection, 10), opt: map[string]interface{}{}}
	taking := false // the accessors of a message are scheduling points
	take := func() {
		for taking {
			h.Sleep(us)
		}
		taking = true
		defer func() { taking = false }()
		for len(ep.rx) > 0 {
			d := <-ep.rx
			c := byC[d.GetConnection()]
			b, ok := d.GetData().([]byte)
			if c == nil || !ok {
				h.Fail("misrouted", "a message of unknown connection or type was delivered")
				return
			}
			got[c.n] = append(got[c.n], b...)
		}
	}
	s.OnEv = func(e Ev) {
		if e.Type != ustack.UStackEventConnectionClosed {
			return
		}
		c := byC[e.Conn]
		if c == nil {
			return
		}
		take()
		h.Obs()
		closed[c.n]++
		if !bytes.Equal(got[c.n], expect[c.n]) {
			h.Fail("data-lost-at-end", "connection %d was announced closed with %d bytes delivered of the %d that had arrived", c.n, len(got[c.n]), len(expect[c.n]))
		}
		if h.p("slowev") == 1 {
			h.Sleep(ms)
		}
	}
	h.Must("S", "build", func() {
		s.U.AddEndPoint(ep)
		s.U.AddTransport(tp)
		s.U.Run()
	})
	start := zzsim.NowNano()
	room := s.room()
	var dones []*bool
	for i := 0; i < n; i++ {
		i := i
		conns[i] = &memConn{h: h, n: i}
		byC[conns[i]] = conns[i]
		zzsim.To(tp.conns).Send(-63, ustack.TransportConnection(conns[i]))
		seq := 0
		frameUp := func(size int) []byte {
			if size > room {
				size = room
			}
			b := payload(i, seq, size)
			seq++
			expect[i] = append(expect[i], b...)
			if frame && len(b) > 0 {
				return append([]byte{0, 0, byte(len(b) >> 8), byte(len(b))}, b...)
			}
			return b
		}
		fin := false
		dones = append(dones, h.actor("P", fmt.Sprintf("k%d", i), start, func(o Op) {
			c := conns[i]
			if fin {
				return
			}
			switch o.K {
			case "bytes":
				c.q = append(c.q, memRead{b: frameUp(o.A), max: o.B})
			case "end":
				fin = true
				err := []error{io.EOF, errFault, io.ErrUnexpectedEOF}[o.B]
				c.q = append(c.q, memRead{b: frameUp(o.A), max: o.C, err: err})
			}
		}))
	}
	h.Wait(60*sec, func() bool {
		for i, d := range dones {
			if !*d || (conns[i].ended && closed[i] == 0) || len(conns[i].q) > 0 {
				return false
			}
		}
		return true
	})
	h.Sleep(100 * ms)
	take()
	for i := range conns {
		h.Obs()
		if conns[i].ended && closed[i] == 0 {
			h.Fail("end-not-announced", "the end of connection %d was not announced", i)
		}
		if len(conns[i].q) > 0 {
			h.Fail("no-progress", "connection %d: bytes are offered but not read", i)
		}
		if !bytes.Equal(got[i], expect[i]) {
			h.Fail("bytes-not-conserved", "connection %d: %d bytes offered, %d delivered", i, len(expect[i]), len(got[i]))
		}
	}
}
