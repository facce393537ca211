package main

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"reflect"

	"ustack"
	"ustack/zzsim"
	snet "ustack/zzsim/net"
)

const (
	us  = int64(1000)
	ms  = int64(1000000)
	sec = int64(1000000000)
)

// H is the harness of one run.
type H struct {
	P     *Plan
	G     *zzsim.Rng
	Net   *snet.Net
	nodes map[string]*zzsim.Node
}

func newH(p *Plan) *H {
	return &H{P: p, G: zzsim.NewRng(zzsim.Mix(p.Seed, "harness")), Net: snet.N(), nodes: map[string]*zzsim.Node{}}
}

func (h *H) Node(name string) *zzsim.Node {
	n := h.nodes[name]
	if n == nil || n.Dead {
		n = zzsim.NewNode(name)
		h.nodes[name] = n
	}
	return n
}

// Go runs fn as a task of a node.
func (h *H) Go(node, name string, fn func()) *zzsim.Task {
	return zzsim.GoOn(h.Node(node), name, fn)
}

// Call runs fn on a node and waits for it; false if it did not return within
// limit nanoseconds of simulated time.
func (h *H) Call(node, name string, limit int64, fn func()) bool {
	done := false
	h.Go(node, name, func() { fn(); done = true })
	return h.Wait(limit, func() bool { return done })
}

// Must is Call that reports a violation when the call does not return.
func (h *H) Must(node, name string, fn func()) {
	if !h.Call(node, name, 30*sec, fn) {
		h.Fail("blocked", "%s on %s did not return within 30 simulated seconds; tasks: %v", name, node, zzsim.TaskNames(h.Node(node)))
	}
}

// Wait polls cond until it holds or limit has passed.
func (h *H) Wait(limit int64, cond func() bool) bool {
	if limit >= 20*sec {
		limit += int64(h.p("lull")) * sec
	}
	begin := zzsim.NowNano()
	end := begin + limit
	step := 10 * us
	for {
		if cond() {
			return true
		}
		now := zzsim.NowNano()
		if now >= end {
			return false
		}
		if now+step > end {
			step = end - now
		}
		zzsim.SleepNano(step)
		if step < 20*ms || now-begin > 60*sec && step < sec {
			step += step / 2
		}
	}
}

// Until sleeps until an absolute simulated time (microseconds).
func (h *H) Until(at int64) {
	if d := at*us - zzsim.NowNano(); d > 0 {
		zzsim.SleepNano(d)
	}
}

func (h *H) Sleep(d int64) { zzsim.SleepNano(d) }

func (h *H) Fail(class, f string, a ...interface{}) { zzsim.Violation(class, f, a...) }
func (h *H) Obs()                                   { zzsim.Count("observations", 1) }

// p is a parameter of the plan.
func (h *H) p(k string) int { return h.P.P[k] }

// ops returns the operations of one actor.
func (h *H) ops(who string) (out []Op) {
	for _, o := range h.P.Ops {
		if o.Who == who {
			out = append(out, o)
		}
	}
	return
}

// actor runs the operations of who on a node, each not before its time (offset
// from start), and returns a flag that becomes true at the end.
func (h *H) actor(node, who string, start int64, f func(o Op)) *bool {
	done := new(bool)
	ops := h.ops(who)
	h.Go(node, "actor-"+who, func() {
		for _, o := range ops {
			if d := start + o.At*us - zzsim.NowNano(); d > 0 {
				zzsim.SleepNano(d)
			}
			zzsim.Logf("op %v", o)
			f(o)
		}
		*done = true
	})
	return done
}

// ---------------------------------------------------------------- messages

// Msg is the structured message of the JSON and GOB codecs.
type Msg struct {
	ID   int
	Body []byte
}

const (
	codecBytes = iota
	codecString
	codecJSON
	codecGOB
	codecGeneric
	codecCount
	codecGenericFull = codecCount     // a decoder that insists on a length
	codecGenericAll  = codecCount + 1 // a decoder that reads to the end
	codecGenericRaw  = codecCount + 2 // the bytes as they are, even none
)

var salt uint32 // of the run

func payload(tag, seq, size int) []byte {
	b := make([]byte, size)
	x := (uint32(tag*7919+seq*104729+size) ^ salt) | 1
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x)
	}
	if (x>>9)%4 == 0 { // bytes that mean something to the processors
		for i := range b {
			x ^= x << 13
			x ^= x >> 17
			x ^= x << 5
			b[i] = []byte{0, 0x83, 0x10, 0x23, 0xff, 1, '\n', 0}[x>>11&7]
		}
	}
	hd := fmt.Sprintf("%d.%d/", tag, seq)
	if len(hd) <= size {
		copy(b, hd)
	}
	return b
}

func pack(codec int, id int, b []byte) interface{} {
	switch codec {
	case codecString:
		return string(b)
	case codecJSON, codecGOB:
		if id%3 == 0 { // both codecs take a message by value or by pointer
			return &Msg{ID: id, Body: b}
		}
		return Msg{ID: id, Body: b}
	}
	return append([]byte(nil), b...)
}

// unpack returns the payload of a delivered message; ok is false if it is not
// of the codec's type.
func unpack(codec int, m interface{}) (b []byte, ok bool) {
	switch codec {
	case codecString:
		s, ok := m.(string)
		return []byte(s), ok
	case codecJSON, codecGOB:
		switch x := m.(type) {
		case *Msg:
			return x.Body, true
		case Msg:
			return x.Body, true
		}
		return nil, false
	}
	x, ok := m.([]byte)
	return x, ok
}

// encodedLen is the size of a message after the codec.
func encodedLen(codec int, id int, b []byte) int {
	switch codec {
	case codecJSON:
		x, _ := json.Marshal(pack(codec, id, b))
		return len(x)
	case codecGOB:
		var w bytes.Buffer
		gob.NewEncoder(&w).Encode(pack(codec, id, b))
		return w.Len()
	case codecGeneric, codecGenericFull, codecGenericAll:
		return len(b) + 2
	}
	return len(b)
}

// fit shrinks a payload until its encoding is at most room bytes.
func fit(codec, tag, seq, size, room int) []byte {
	for {
		if size < 1 {
			return nil
		}
		b := payload(tag, seq, size)
		n := encodedLen(codec, seq, b)
		if n <= room {
			return b
		}
		d := (n - room) * 3 / 4
		if d < 1 {
			d = 1
		}
		size -= d
	}
}

// user functions of the generic codec: two-byte checksum then the bytes
func genEncode(m interface{}, w io.Writer) error {
	b, ok := m.([]byte)
	if !ok {
		return errors.New("not bytes")
	}
	var hd [2]byte
	binary.LittleEndian.PutUint16(hd[:], sum16(b))
	if _, err := w.Write(hd[:]); err != nil {
		return err
	}
	_, err := w.Write(b)
	return err
}

func sum16(b []byte) uint16 {
	s := uint16(len(b))
	for _, c := range b {
		s = s*31 + uint16(c)
	}
	return s
}

func genDecode(r io.Reader) (interface{}, error) {
	var out []byte
	buf := make([]byte, 64)
	idle := 0
	for {
		n, err := r.Read(buf)
		out = append(out, buf[:n]...)
		if err != nil || (n == 0 && idle > 2) {
			break
		}
		if n == 0 {
			idle++
		}
	}
	if len(out) < 2 || sum16(out[2:]) != binary.LittleEndian.Uint16(out) {
		return nil, errors.New("bad checksum")
	}
	return out[2:], nil
}

func genEncodeFull(m interface{}, w io.Writer) error {
	b, ok := m.([]byte)
	if !ok {
		return errors.New("not bytes")
	}
	if err := binary.Write(w, binary.BigEndian, uint16(len(b))); err != nil {
		return err
	}
	_, err := w.Write(b)
	return err
}

func genDecodeFull(r io.Reader) (interface{}, error) {
	var n uint16
	if err := binary.Read(r, binary.BigEndian, &n); err != nil {
		return nil, err
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return nil, err
	}
	return b, nil
}

func genDecodeAll(r io.Reader) (interface{}, error) {
	out, err := io.ReadAll(r)
	if err != nil {
		return nil, err
	}
	if len(out) < 2 || sum16(out[2:]) != binary.LittleEndian.Uint16(out) {
		return nil, errors.New("bad checksum")
	}
	return out[2:], nil
}

func genEncodeRaw(m interface{}, w io.Writer) error {
	b, ok := m.([]byte)
	if !ok {
		return errors.New("not bytes")
	}
	if len(b) == 0 {
		return nil
	}
	_, err := w.Write(b)
	return err
}

func genDecodeRaw(r io.Reader) (interface{}, error) {
	b, err := io.ReadAll(r)
	if b == nil {
		b = []byte{}
	}
	return b, err
}

func newCodec(k int) ustack.DataProcessor {
	switch k {
	case codecString:
		return ustack.NewStringCodec()
	case codecJSON:
		return ustack.NewJSONCodec(reflect.TypeOf(Msg{}))
	case codecGOB:
		return ustack.NewGOBCodec(reflect.TypeOf(Msg{}))
	case codecGeneric:
		return ustack.NewGenericCodec(nil, genEncode, genDecode)
	case codecGenericFull:
		return ustack.NewGenericCodec(nil, genEncodeFull, genDecodeFull)
	case codecGenericAll:
		return ustack.NewGenericCodec(nil, genEncode, genDecodeAll)
	case codecGenericRaw:
		return ustack.NewGenericCodec(nil, genEncodeRaw, genDecodeRaw)
	}
	return ustack.NewBytesCodec()
}

// ---------------------------------------------------------------- endpoints

// EP is an endpoint, optionally with small channels of its own.
type EP struct {
	ustack.EndPoint
	tx, rx chan ustack.EndPointData
	Label  string // its name may be that of others too
}

// shared: names need not be unique; in some runs all are the same.
func shared(all, name string) string {
	if salt%3 == 0 {
		return all
	}
	return name
}

func newEP(name string, session, size int) *EP {
	e := &EP{EndPoint: ustack.NewEndPoint(shared("ep", name), session), Label: name}
	if size > 0 {
		e.tx = make(chan ustack.EndPointData, size)
		e.rx = make(chan ustack.EndPointData, size)
	}
	return e
}

func (e *EP) GetTxChannel() chan ustack.EndPointData {
	if e.tx != nil {
		return e.tx
	}
	return e.EndPoint.GetTxChannel()
}

func (e *EP) GetRxChannel() chan ustack.EndPointData {
	if e.rx != nil {
		return e.rx
	}
	return e.EndPoint.GetRxChannel()
}

// send queues a message on an endpoint (blocking while its queue is full).
func send(e ustack.EndPoint, c ustack.TransportConnection, m interface{}) {
	zzsim.To(e.GetTxChannel()).Send(-100, ustack.NewEndPointData().SetConnection(c).SetData(m))
}

func sendTo(e ustack.EndPoint, c ustack.TransportConnection, session int, m interface{}) {
	zzsim.To(e.GetTxChannel()).Send(-100, ustack.NewEndPointData().SetConnection(c).SetData(m).SetDestinationSession(session))
}

// recvLoop hands everything that arrives on e to f, on a task of the node. With
// listener set it uses the data listener, otherwise the receive channel.
func (h *H) recvLoop(node string, e *EP, listener bool, f func(ustack.EndPointData)) {
	if listener && e.rx == nil {
		e.SetDataListener(func(_ ustack.EndPoint, d ustack.EndPointData) { f(d) })
		return
	}
	h.Go(node, "reader-"+e.Label, func() {
		for {
			d, ok := zzsim.Recv2(-100, (<-chan ustack.EndPointData)(e.GetRxChannel()))
			if !ok {
				return
			}
			f(d)
		}
	})
}

// ---------------------------------------------------------------- stacks

// Ev is an observed event.
type Ev struct {
	Type int
	Conn ustack.TransportConnection
	At   int64
	Data interface{}
}

// Stk is a stack under test.
type Stk struct {
	h      *H
	Node   string
	U      ustack.UStack
	Codec  int
	Over   int // expected overhead of the processors
	MTU    int
	Events []Ev
	Conns  []ustack.TransportConnection // in order of their new-connection events
	OnEv   func(Ev)
	Procs  []string
	Under  *Spy // put directly below the codec
}

// newStk makes a stack with an event listener that records everything.
func (h *H) newStk(node string, mtu int) *Stk {
	s := &Stk{h: h, Node: node, MTU: mtu}
	s.U = ustack.NewUStack().SetName(node)
	if mtu > 0 {
		s.U.SetOption("MTU", mtu)
	} else {
		s.MTU = 2048
	}
	s.U.SetEventListener(func(e ustack.Event) {
		ev := Ev{Type: e.Type, At: zzsim.NowNano(), Data: e.Data}
		ev.Conn, _ = e.Data.(ustack.TransportConnection)
		s.Events = append(s.Events, ev)
		if e.Type == ustack.UStackEventNewConnection {
			s.Conns = append(s.Conns, ev.Conn)
		}
		zzsim.Logf("event type=%d", e.Type)
		if s.OnEv != nil {
			s.OnEv(ev)
		}
		zzsim.S(-101)
	})
	return s
}

func (s *Stk) codec(k int) *Stk {
	s.Codec = k
	s.U.AppendDataProcessor(newCodec(k))
	return s
}

// add appends a processor.
func (s *Stk) add(p ustack.DataProcessor) *Stk {
	s.Over += p.GetOverhead()
	s.U.AppendDataProcessor(p)
	return s
}

func passAll(ustack.Context, bool) bool  { return true }
func takeNone(ustack.Context, bool) bool { return false }

// processors that may be stacked above the frame decoder without changing what
// is delivered; the first group adds headers and must match on both sides
var headerProcs = []string{"session", "stat", "statoff", "heartbeat", "lboff"}
var plainProcs = []string{"filter", "forwarder", "echooff", "discardoff", "sessionoff", "flow", "frameoff"}

func mkProc(name string) ustack.DataProcessor {
	switch name {
	case "session":
		return ustack.NewSessionResolver()
	case "sessionoff":
		return ustack.NewSessionResolver().SetEnable(false)
	case "stat":
		return ustack.NewStatCounter()
	case "statoff":
		return ustack.NewStatCounter().SetEnable(false)
	case "heartbeat":
		return ustack.NewHeartbeat().SetOption("IntervalInSecond", 1).SetOption("TimeoutInSecond", 100000)
	case "lboff":
		return ustack.NewLoadBalancer().SetEnable(false)
	case "filter":
		return ustack.NewFilter(passAll)
	case "forwarder":
		return ustack.NewForwarder(takeNone)
	case "echooff":
		return ustack.NewEcho().SetEnable(false)
	case "discardoff":
		return ustack.NewDiscarder().SetEnable(false)
	case "flow":
		return ustack.NewFlowController()
	case "frameoff":
		return ustack.NewFrameDecoder().SetEnable(false)
	case "bytesoff":
		return newCodec(codecBytes).SetEnable(false)
	case "stringoff":
		return newCodec(codecString).SetEnable(false)
	case "jsonoff":
		return newCodec(codecJSON).SetEnable(false)
	case "goboff":
		return newCodec(codecGOB).SetEnable(false)
	case "genericoff":
		return newCodec(codecGeneric).SetEnable(false)
	}
	panic("unknown processor " + name)
}

// procsFrom decodes a parameter into an ordered list of processors.
func procsFrom(seed int) (hdr []string) {
	g := zzsim.NewRng(uint64(seed))
	if seed == 0 {
		return nil
	}
	all := append(append([]string(nil), headerProcs...), plainProcs...)
	n := g.Intn(5)
	perm := g.Perm(len(all))
	for _, i := range perm[:n] {
		hdr = append(hdr, all[i])
	}
	return
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// framed builds codec + procs + frame decoder.
func (s *Stk) framed(codec int, procs []string, cache int) *Stk {
	s.codec(codec)
	if s.Under != nil {
		s.add(s.Under)
	}
	s.Procs = procs
	for _, p := range procs {
		s.add(mkProc(p))
	}
	f := ustack.NewFrameDecoder()
	if cache > 0 {
		f.SetOption("CacheCapacity", cache)
	}
	return s.add(f)
}

// room is the largest encoded message that fits the MTU.
// many is mostly a number up to hi, one time in so many one up to huge.
func many(g *zzsim.Rng, lo, hi, one, huge int) int {
	if g.Intn(one) == 0 {
		return g.Range(hi, huge)
	}
	return g.Range(lo, hi)
}

// genLull: now and then nothing happens for minutes or hours in between.
func genLull(g *zzsim.Rng, p *Plan) {
	if g.Intn(25) > 0 || len(p.Ops) == 0 {
		return
	}
	from := p.Ops[g.Intn(len(p.Ops))].At
	if from == 0 {
		return
	}
	d := []int{40, 70, 400, 2000, 4000, 20000}[g.Intn(6)]
	if d > 400 && (p.P["hb"] > 0 || p.P["heartbeat"] > 0 || p.P["procs"] > 0) {
		d = 400 // there may be heartbeats all the while
	}
	if c := p.P["clients"]; d > 70 && c > 4 {
		d = 70
	}
	if d > 70 && p.P["spies"] > 0 {
		d = 70 // and more of them
	}
	p.P["lull"] = d
	for i := range p.Ops {
		if p.Ops[i].At >= from {
			p.Ops[i].At += int64(d) * 1000000
		}
	}
}

// genRush: now and then there is much more traffic than usual; the network
// then works with larger pieces.
func genRush(g *zzsim.Rng, p *Plan, one int) bool {
	if g.Intn(one) > 0 {
		return false
	}
	tame(g, p, 6000)
	if p.Net.Window < 400 {
		p.Net.Window = 400
	}
	return true
}

// genWide: now and then messages are much larger.
func genWide(g *zzsim.Rng, p *Plan) int {
	if g.Intn(4) == 0 {
		p.P["mtu"] = []int{700, 2048, 5000}[g.Intn(3)]
		tame(g, p, p.P["mtu"])
		// a narrow window would hold heartbeats back behind the large messages
		// for longer than the timeout, and rightly lose the connection
		if p.Net.Window < 32768 {
			p.Net.Window = 32768
		}
		return p.P["mtu"] / 200
	}
	return 1
}

func (h *H) mtu(def int) int {
	if m := h.p("mtu"); m > 0 {
		return m
	}
	return def
}

func (s *Stk) room() int { return s.MTU - s.Over }

func newTransport(unix, server bool, name, addr string) ustack.Transport {
	var t ustack.Transport
	name = shared("t", name)
	if unix {
		t = ustack.NewUDSTransport(name)
	} else {
		t = ustack.NewTCPTransport(name)
	}
	t.SetAddress(addr).ForServer(server)
	if !server {
		t.SetOption("RetryIntervalInSecond", 1)
	}
	return t
}

func addrFor(unix bool, i int) string {
	if unix {
		return fmt.Sprintf("/sim/sock%d", i)
	}
	return fmt.Sprintf("127.0.0.1:%d", 9000+i)
}

// ---------------------------------------------------------------- stream oracle

// stream checks that what arrives is what was sent, in order, exactly once.
type stream struct {
	h     *H
	name  string
	sent  [][]byte
	got   int
	codec int
}

func (s *stream) expect(b []byte) { s.sent = append(s.sent, b) }

func (s *stream) arrive(m interface{}) {
	s.h.Obs()
	b, ok := unpack(s.codec, m)
	if !ok {
		s.h.Fail("wrong-type", "%s: delivered message %d has type %T", s.name, s.got, m)
		return
	}
	if s.got >= len(s.sent) {
		s.h.Fail("unexpected-message", "%s: message %d delivered but only %d were sent: %s", s.name, s.got, len(s.sent), brief(b))
		return
	}
	if !bytes.Equal(b, s.sent[s.got]) {
		s.h.Fail("wrong-message", "%s: message %d: sent %s, delivered %s", s.name, s.got, brief(s.sent[s.got]), brief(b))
		return
	}
	s.got++
	zzsim.Logf("delivered %s %d", s.name, s.got)
}

func (s *stream) complete() bool { return s.got == len(s.sent) }

func brief(b []byte) string {
	if len(b) <= 24 {
		return fmt.Sprintf("%d bytes %q", len(b), b)
	}
	return fmt.Sprintf("%d bytes %q...", len(b), b[:24])
}

// settle waits until all streams are complete; it fails when nothing has
// arrived for patience although something is missing.
func (h *H) settle(patience int64, streams ...*stream) {
	last := -1
	for {
		tot, want := 0, 0
		for _, s := range streams {
			tot += s.got
			want += len(s.sent)
		}
		if tot == want {
			return
		}
		if tot == last {
			for _, s := range streams {
				if !s.complete() {
					h.Fail("lost-message", "%s: only %d of %d messages delivered, nothing for %d s although the network is healthy; first missing: %s", s.name, s.got, len(s.sent), patience/sec, brief(s.sent[s.got]))
				}
			}
		}
		last = tot
		h.Wait(patience, func() bool {
			t := 0
			for _, s := range streams {
				t += s.got
			}
			return t == want
		})
	}
}
