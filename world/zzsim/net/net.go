// Package net is the simulated network. It replaces the socket-making part of
// the standard net package in simulated code; interfaces and address types
// stay those of the standard package.
package net

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"
	"unsafe"

	"ustack/zzsim"
)

// ---------------------------------------------------------------- world

// Config sets the behaviour of links. All times in nanoseconds.
type Config struct {
	MinDelay int64 `json:"min_delay"`
	MaxDelay int64 `json:"max_delay"`
	SegMax   int   `json:"seg_max"`  // largest segment delivered at once
	SegMin   int   `json:"seg_min"`  // smallest
	Window   int   `json:"window"`   // bytes in flight plus unread at the receiver
	ShortRd  int   `json:"short_rd"` // if >0: a read returns at most a random 1..ShortRd bytes
}

// Attempt is one dial attempt seen by the network.
type Attempt struct {
	Node    string
	Net     string
	Addr    string
	Start   int64
	End     int64
	Err     string
	Conn    *Pair
	Timeout int64
}

// Net is the network of one world.
type Net struct {
	Cfg       Config
	listeners map[string]*listener
	paths     map[string]*listener // unix: path -> last listener bound there (may be dead)
	cuts      map[string]bool
	pipes     []*pipe
	socks     []*conn
	Pairs     []*Pair
	Attempts  []*Attempt
	Binds     []string
	port      int
	nodes     map[string]*zzsim.Node
	// DialFault, if set, decides the fate of a dial: "" (normal), "refuse",
	// "drop" (SYN lost), "late" (established at the server, client times out).
	DialFault func(node string, nth int, addr string) string
	dialCount map[string]int
	// OnPair is called for every connection established.
	OnPair func(p *Pair)
	// LoseOnReset: a reset destroys data in flight (as TCP does).
	AcceptErr func(addr string, nth int) error
}

// Pair is an established connection as the network sees it.
type Pair struct {
	ID             string
	Client, Server *conn
	ClientNode     string
	ServerNode     string
	Addr           string
	EstablishedAt  int64
}

// N returns the network of the running world.
func N() *Net {
	w := zzsim.W()
	if w == nil {
		panic("zzsim/net: used outside a simulated run")
	}
	if w.Net == nil {
		w.Net = &Net{
			Cfg:       Config{MinDelay: 20000, MaxDelay: 200000, SegMax: 65536, SegMin: 1, Window: 65536},
			listeners: map[string]*listener{}, paths: map[string]*listener{},
			cuts: map[string]bool{}, nodes: map[string]*zzsim.Node{}, port: 40000,
			dialCount: map[string]int{},
		}
	}
	return w.Net.(*Net)
}

func linkKey(a, b string) string {
	if a > b {
		a, b = b, a
	}
	return a + "|" + b
}

// Cut partitions two nodes.
func (n *Net) Cut(a, b string) {
	if n.cuts[linkKey(a, b)] {
		return
	}
	zzsim.Count("fault.partition", 1)
	n.cuts[linkKey(a, b)] = true
}

// Heal ends a partition; held data flows again.
func (n *Net) Heal(a, b string) {
	if !n.cuts[linkKey(a, b)] {
		return
	}
	zzsim.Count("fault.heal", 1)
	delete(n.cuts, linkKey(a, b))
	for _, p := range n.pipes {
		if p.held && !n.isCut(p) {
			p.held = false
			p.kick()
		}
	}
}

func (n *Net) isCut(p *pipe) bool {
	return len(n.cuts) > 0 && n.cuts[linkKey(p.src.nodeName, p.dst.nodeName)]
}

// CrashNode ends every socket of a node. With silent, nothing is sent (power
// loss or a vanished host); otherwise the kernel closes them as on process exit.
func (n *Net) CrashNode(name string, silent bool) {
	var keys []string
	for k := range n.listeners {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		if l := n.listeners[k]; l.nodeName == name && !l.closed {
			l.shut(false)
		}
	}
	for _, c := range n.socks {
		if c.nodeName == name && !c.closed {
			if silent {
				c.closed = true
				c.gone = true
				c.out.purge()
				c.out.dead = true
			} else {
				c.doClose()
			}
		}
	}
}

// ---------------------------------------------------------------- pipes

type seg struct {
	data []byte
	fin  bool
	rst  bool
	at   int64
}

// pipe carries bytes from src to dst.
type pipe struct {
	src, dst *conn
	rng      *zzsim.Rng
	q        []seg // in flight, in order
	inflight int
	lastAt   int64
	armed    bool
	held     bool
	dead     bool
	rcv      []byte // arrived, unread
	finArr   bool
	sent     int64 // bytes accepted from the writer
	arrived  int64
	// FailAt: the write that crosses this byte count fails there (-1: never).
	failAt  int64
	failErr error
	// failSoft: the failure does not end the connection
	failSoft bool
	FailedAt int64 // position of the failure, -1: none
	// stallUntil delays delivery.
	stallUntil int64
	all        []byte // record of everything accepted, if recording
	record     bool
}

func (p *pipe) space() int {
	s := N().Cfg.Window - p.inflight - len(p.rcv)
	if s < 0 {
		s = 0
	}
	return s
}

func (p *pipe) delay() int64 {
	c := N().Cfg
	d := c.MinDelay
	if c.MaxDelay > c.MinDelay {
		d += int64(p.rng.Uint64() % uint64(c.MaxDelay-c.MinDelay+1))
	}
	return d
}

func (p *pipe) enqueue(s seg) {
	if p.dead {
		return
	}
	at := zzsim.NowNano() + p.delay()
	if at < p.stallUntil {
		at = p.stallUntil
	}
	if at < p.lastAt {
		at = p.lastAt
	}
	p.lastAt = at
	s.at = at
	p.q = append(p.q, s)
	p.inflight += len(s.data)
	p.kick()
}

func (p *pipe) kick() {
	if p.armed || p.held || len(p.q) == 0 {
		return
	}
	p.armed = true
	zzsim.At(p.q[0].at, p.deliver)
}

func (p *pipe) purge() {
	p.q = nil
	p.inflight = 0
}

func (p *pipe) deliver() {
	p.armed = false
	if len(p.q) == 0 {
		return
	}
	if N().isCut(p) {
		p.held = true
		return
	}
	now := zzsim.NowNano()
	for len(p.q) > 0 && p.q[0].at <= now {
		s := p.q[0]
		p.q[0].data = nil
		p.q = p.q[1:]
		p.inflight -= len(s.data)
		p.arrive(s)
	}
	p.kick()
}

func (p *pipe) arrive(s seg) {
	d := p.dst
	if d.gone {
		return // host vanished: no answer at all
	}
	if s.rst {
		d.reset(syscall.ECONNRESET)
		return
	}
	if d.closed || d.err != nil {
		if len(s.data) > 0 && d.closed && !d.rstSent {
			d.rstSent = true
			d.out.purge()
			d.out.enqueue(seg{rst: true})
		}
		return
	}
	if len(s.data) > 0 {
		p.rcv = append(p.rcv, s.data...)
		p.arrived += int64(len(s.data))
	}
	if s.fin {
		p.finArr = true
	}
	zzsim.Notify(d.rkey())
	zzsim.Notify(p.src.wkey())
}

// ---------------------------------------------------------------- conn

type conn struct {
	nodeName string
	network  string
	local    addr
	remote   addr
	out, in  *pipe
	closed   bool
	gone     bool
	rstSent  bool
	err      error // reset
	rlock    bool
	wlock    bool
	rdl, wdl int64 // deadlines, 0 = none
	wclosed  bool
	r, w     byte
	rk, wk   byte
	pair     *Pair
	CloseAt  int64
	deadErr  bool
}

func (c *conn) rkey() unsafe.Pointer  { return unsafe.Pointer(&c.r) }
func (c *conn) wkey() unsafe.Pointer  { return unsafe.Pointer(&c.w) }
func (c *conn) rlkey() unsafe.Pointer { return unsafe.Pointer(&c.rk) }
func (c *conn) wlkey() unsafe.Pointer { return unsafe.Pointer(&c.wk) }

type addr struct{ net, s string }

func (a addr) Network() string { return a.net }
func (a addr) String() string  { return a.s }

func (c *conn) wake() {
	zzsim.Notify(c.rkey())
	zzsim.Notify(c.wkey())
	zzsim.Notify(c.rlkey())
	zzsim.Notify(c.wlkey())
}

// reset: an RST arrived (or a fault hit this socket).
func (c *conn) reset(e error) {
	if c.closed || c.err != nil {
		return
	}
	c.err = e
	c.out.purge()
	c.out.dead = true
	c.wake()
}

func (c *conn) opErr(op string, e error) error {
	return &net.OpError{Op: op, Net: c.network, Source: c.local, Addr: c.remote, Err: e}
}

func (c *conn) Read(b []byte) (int, error) {
	if zzsim.Dying() {
		return 0, io.EOF
	}
	zzsim.S(-50)
	for c.rlock && !c.closed {
		zzsim.Block(c.rlkey(), "conn read lock")
		if zzsim.Dying() {
			return 0, io.EOF
		}
	}
	if c.closed {
		return 0, c.opErr("read", net.ErrClosed)
	}
	if len(b) == 0 {
		return 0, nil
	}
	c.rlock = true
	defer func() {
		c.rlock = false
		if !zzsim.Dying() {
			zzsim.Notify(c.rlkey())
		}
	}()
	for {
		if c.closed {
			return 0, c.opErr("read", net.ErrClosed)
		}
		if c.rdl != 0 && c.rdl <= zzsim.NowNano() {
			return 0, c.opErr("read", os.ErrDeadlineExceeded)
		}
		if len(c.in.rcv) > 0 {
			m := len(b)
			if k := N().Cfg.ShortRd; k > 0 {
				if r := 1 + c.in.rng.Intn(k); r < m {
					m = r
				}
			}
			n := copy(b[:m], c.in.rcv)
			c.in.rcv = c.in.rcv[n:]
			if len(c.in.rcv) == 0 {
				c.in.rcv = nil
			}
			zzsim.Notify(c.in.src.wkey())
			return n, nil
		}
		if c.err != nil {
			return 0, c.opErr("read", c.err)
		}
		if c.in.finArr {
			return 0, io.EOF
		}
		if c.rdl != 0 {
			zzsim.BlockUntil(c.rkey(), c.rdl, "conn read")
		} else {
			zzsim.Block(c.rkey(), "conn read")
		}
		if zzsim.Dying() {
			return 0, io.EOF
		}
	}
}

func (c *conn) Write(b []byte) (int, error) {
	if zzsim.Dying() {
		return 0, io.ErrClosedPipe
	}
	zzsim.S(-51)
	for c.wlock && !c.closed {
		zzsim.Block(c.wlkey(), "conn write lock")
		if zzsim.Dying() {
			return 0, io.ErrClosedPipe
		}
	}
	if c.closed {
		return 0, c.opErr("write", net.ErrClosed)
	}
	c.wlock = true
	defer func() {
		c.wlock = false
		if !zzsim.Dying() {
			zzsim.Notify(c.wlkey())
		}
	}()
	done := 0
	for {
		if c.closed {
			return done, c.opErr("write", net.ErrClosed)
		}
		if c.wdl != 0 && c.wdl <= zzsim.NowNano() {
			return done, c.opErr("write", os.ErrDeadlineExceeded)
		}
		if c.err != nil {
			e := c.err
			if c.deadErr {
				e = syscall.EPIPE
			}
			c.deadErr = true
			return done, c.opErr("write", e)
		}
		if c.wclosed {
			return done, c.opErr("write", syscall.EPIPE)
		}
		if c.network == "unix" && (c.out.dst.closed || c.out.dst.err != nil) {
			return done, c.opErr("write", syscall.EPIPE)
		}
		if done == len(b) {
			return done, nil
		}
		n := c.out.space()
		if n > len(b)-done {
			n = len(b) - done
		}
		fail := false
		if f := c.out.failAt; f >= 0 && c.out.sent+int64(n) > f {
			n = int(f - c.out.sent)
			fail = true
		}
		if n > 0 {
			c.push(b[done : done+n])
			done += n
		}
		if fail {
			zzsim.Count("fault.write-error", 1)
			c.out.failAt = -1
			e := c.out.failErr
			c.out.FailedAt = c.out.sent
			if c.out.failSoft {
				// the kernel ran out of memory: the connection itself is fine
				zzsim.Count("fault.write-nobufs", 1)
				return done, c.opErr("write", e)
			}
			c.err = e
			c.out.enqueue(seg{rst: true})
			c.wake()
			return done, c.opErr("write", e)
		}
		if n > 0 {
			continue
		}
		if c.wdl != 0 {
			zzsim.BlockUntil(c.wkey(), c.wdl, "conn write")
		} else {
			zzsim.Block(c.wkey(), "conn write")
		}
		if zzsim.Dying() {
			return done, io.ErrClosedPipe
		}
	}
}

// push cuts data into segments and sends them.
func (c *conn) push(b []byte) {
	cfg := N().Cfg
	p := c.out
	if p.record {
		p.all = append(p.all, b...)
	}
	p.sent += int64(len(b))
	for len(b) > 0 {
		k := len(b)
		if cfg.SegMax > 0 && (k > cfg.SegMax || cfg.SegMin < cfg.SegMax) {
			m := cfg.SegMin
			if m < 1 {
				m = 1
			}
			if cfg.SegMax > m {
				m += p.rng.Intn(cfg.SegMax - m + 1)
			}
			if m < k {
				k = m
			}
		}
		zzsim.Count("net.segments", 1)
		p.enqueue(seg{data: append([]byte(nil), b[:k]...)})
		b = b[k:]
	}
}

func (c *conn) doClose() {
	if c.closed {
		return
	}
	c.closed = true
	c.CloseAt = zzsim.NowNano()
	if c.err == nil {
		if len(c.in.rcv) > 0 {
			// unread data: the kernel answers with a reset
			c.rstSent = true
			c.out.enqueue(seg{rst: true})
			zzsim.Count("net.rst", 1)
		} else {
			c.out.enqueue(seg{fin: true})
		}
	}
	c.in.rcv = nil
	c.wake()
	zzsim.Notify(c.in.src.wkey())
}

func (c *conn) Close() error {
	if zzsim.Dying() {
		return nil
	}
	zzsim.S(-52)
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	c.doClose()
	return nil
}

func (c *conn) CloseWrite() error {
	if zzsim.Dying() {
		return nil
	}
	zzsim.S(-52)
	if c.closed {
		return c.opErr("close", net.ErrClosed)
	}
	if !c.wclosed {
		c.wclosed = true
		c.out.enqueue(seg{fin: true})
	}
	return nil
}

func (c *conn) CloseRead() error                       { return nil }
func (c *conn) LocalAddr() net.Addr                    { return c.local }
func (c *conn) RemoteAddr() net.Addr                   { return c.remote }
func (c *conn) SetNoDelay(bool) error                  { return nil }
func (c *conn) SetLinger(int) error                    { return nil }
func (c *conn) SetReadBuffer(int) error                { return nil }
func (c *conn) SetWriteBuffer(int) error               { return nil }
func (c *conn) SetKeepAlive(bool) error                { return nil }
func (c *conn) SetKeepAlivePeriod(time.Duration) error { return nil }

func dl(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	d := zzsim.NowNano() + int64(t.Sub(zzsim.Now()))
	if d <= 0 {
		d = 1
	}
	return d
}

func (c *conn) SetDeadline(t time.Time) error {
	c.rdl, c.wdl = dl(t), dl(t)
	c.wake()
	return nil
}
func (c *conn) SetReadDeadline(t time.Time) error  { c.rdl = dl(t); c.wake(); return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { c.wdl = dl(t); c.wake(); return nil }

// TCPConn is what tcp dials and accepts return.
type TCPConn struct{ conn }

// UnixConn is what unix dials and accepts return.
type UnixConn struct{ conn }

func newPair(n *Net, id, network string, cn, sn string, ca, sa addr) (*conn, *conn, net.Conn, net.Conn) {
	var a, b *conn
	var ia, ib net.Conn
	if network == "unix" {
		x, y := &UnixConn{}, &UnixConn{}
		a, b, ia, ib = &x.conn, &y.conn, x, y
	} else {
		x, y := &TCPConn{}, &TCPConn{}
		a, b, ia, ib = &x.conn, &y.conn, x, y
	}
	a.nodeName, b.nodeName = cn, sn
	a.network, b.network = network, network
	a.local, a.remote, b.local, b.remote = ca, sa, sa, ca
	seed := zzsim.W().Seed
	ab := &pipe{src: a, dst: b, rng: zzsim.NewRng(zzsim.Mix(seed, "net", id, 0)), failAt: -1, FailedAt: -1}
	ba := &pipe{src: b, dst: a, rng: zzsim.NewRng(zzsim.Mix(seed, "net", id, 1)), failAt: -1, FailedAt: -1}
	a.out, b.in = ab, ab
	b.out, a.in = ba, ba
	n.pipes = append(n.pipes, ab, ba)
	n.socks = append(n.socks, a, b)
	return a, b, ia, ib
}

// ---------------------------------------------------------------- listener

type listener struct {
	nodeName string
	network  string
	key      string
	a        addr
	backlog  []net.Conn
	closed   bool
	unlink   bool
	k        byte
	accepts  int
	deadline int64
}

// TCPListener ...
type TCPListener struct{ listener }

// UnixListener ...
type UnixListener struct{ listener }

// SetUnlinkOnClose ...
func (l *UnixListener) SetUnlinkOnClose(b bool) { l.unlink = b }

// AcceptTCP ...
func (l *TCPListener) AcceptTCP() (*TCPConn, error) {
	c, e := l.Accept()
	if e != nil {
		return nil, e
	}
	return c.(*TCPConn), nil
}

// AcceptUnix ...
func (l *UnixListener) AcceptUnix() (*UnixConn, error) {
	c, e := l.Accept()
	if e != nil {
		return nil, e
	}
	return c.(*UnixConn), nil
}

func (l *listener) key_() unsafe.Pointer { return unsafe.Pointer(&l.k) }

func (l *listener) Addr() net.Addr { return l.a }

func (l *listener) SetDeadline(t time.Time) error {
	l.deadline = dl(t)
	zzsim.Notify(l.key_())
	return nil
}

func (l *listener) Accept() (net.Conn, error) {
	if zzsim.Dying() {
		return nil, net.ErrClosed
	}
	zzsim.S(-53)
	n := N()
	if n.AcceptErr != nil && !l.closed {
		l.accepts++
		if e := n.AcceptErr(l.key, l.accepts); e != nil {
			zzsim.Count("fault.accept-error", 1)
			return nil, &net.OpError{Op: "accept", Net: l.network, Addr: l.a, Err: e}
		}
	}
	for {
		if l.closed {
			return nil, &net.OpError{Op: "accept", Net: l.network, Addr: l.a, Err: net.ErrClosed}
		}
		if l.deadline != 0 && l.deadline <= zzsim.NowNano() {
			return nil, &net.OpError{Op: "accept", Net: l.network, Addr: l.a, Err: os.ErrDeadlineExceeded}
		}
		if len(l.backlog) > 0 {
			c := l.backlog[0]
			l.backlog = l.backlog[1:]
			return c, nil
		}
		if l.deadline != 0 {
			zzsim.BlockUntil(l.key_(), l.deadline, "accept")
		} else {
			zzsim.Block(l.key_(), "accept")
		}
		if zzsim.Dying() {
			return nil, net.ErrClosed
		}
	}
}

func base(c net.Conn) *conn {
	switch x := c.(type) {
	case *TCPConn:
		return &x.conn
	case *UnixConn:
		return &x.conn
	}
	return nil
}

func (l *listener) shut(unlink bool) {
	n := N()
	l.closed = true
	if n.listeners[l.key] == l {
		delete(n.listeners, l.key)
	}
	if l.network == "unix" && unlink && l.unlink {
		delete(n.paths, l.key)
	}
	for _, c := range l.backlog {
		b := base(c)
		if !b.closed {
			b.closed = true
			b.rstSent = true
			b.out.enqueue(seg{rst: true})
		}
	}
	l.backlog = nil
	zzsim.Notify(l.key_())
}

func (l *listener) Close() error {
	if zzsim.Dying() {
		return nil
	}
	zzsim.S(-54)
	if l.closed {
		return &net.OpError{Op: "close", Net: l.network, Addr: l.a, Err: net.ErrClosed}
	}
	l.shut(true)
	return nil
}

func key(network, address string) (string, error) {
	switch network {
	case "tcp", "tcp4", "tcp6":
		_, p, err := net.SplitHostPort(address)
		if err != nil {
			return "", err
		}
		return "tcp:" + p, nil
	case "unix":
		return address, nil
	}
	return "", net.UnknownNetworkError(network)
}

func short(network string) string {
	if strings.HasPrefix(network, "tcp") {
		return "tcp"
	}
	return network
}

// Listen ...
func Listen(network, address string) (net.Listener, error) {
	if zzsim.Dying() {
		return nil, net.ErrClosed
	}
	zzsim.S(-55)
	n := N()
	k, err := key(network, address)
	if err != nil {
		return nil, &net.OpError{Op: "listen", Net: network, Err: err}
	}
	network = short(network)
	a := addr{network, address}
	bad := func(e error) (net.Listener, error) {
		zzsim.Logf("listen %s %s: %v", network, address, e)
		return nil, &net.OpError{Op: "listen", Net: network, Addr: a, Err: e}
	}
	if network == "unix" {
		if address == "" {
			return bad(errors.New("empty path"))
		}
		if _, ok := n.paths[k]; ok {
			return bad(syscall.EADDRINUSE)
		}
		l := &UnixListener{}
		l.nodeName, l.network, l.key, l.a, l.unlink = zzsim.CurNode().Name, network, k, a, true
		n.paths[k] = &l.listener
		n.listeners[k] = &l.listener
		zzsim.Logf("listen unix %s", address)
		return l, nil
	}
	if _, ok := n.listeners[k]; ok {
		return bad(syscall.EADDRINUSE)
	}
	l := &TCPListener{}
	l.nodeName, l.network, l.key, l.a = zzsim.CurNode().Name, network, k, a
	n.listeners[k] = &l.listener
	zzsim.Logf("listen tcp %s", address)
	return l, nil
}

// ListenTCP ...
func ListenTCP(network string, a *net.TCPAddr) (*TCPListener, error) {
	l, err := Listen(network, a.String())
	if err != nil {
		return nil, err
	}
	return l.(*TCPListener), nil
}

// ListenUnix ...
func ListenUnix(network string, a *net.UnixAddr) (*UnixListener, error) {
	l, err := Listen(network, a.String())
	if err != nil {
		return nil, err
	}
	return l.(*UnixListener), nil
}

// ---------------------------------------------------------------- dial

type timeoutErr struct{}

func (timeoutErr) Error() string   { return "i/o timeout" }
func (timeoutErr) Timeout() bool   { return true }
func (timeoutErr) Temporary() bool { return true }

// Dial ...
func Dial(network, address string) (net.Conn, error) { return dial(network, address, 0, nil) }

// DialTimeout ...
func DialTimeout(network, address string, d time.Duration) (net.Conn, error) {
	return dial(network, address, int64(d), nil)
}

// Dialer ...
type Dialer struct {
	Timeout       time.Duration
	Deadline      time.Time
	LocalAddr     net.Addr
	DualStack     bool
	FallbackDelay time.Duration
	KeepAlive     time.Duration
	Cancel        <-chan struct{}
	Control       func(network, address string, c syscall.RawConn) error
}

func (d *Dialer) limit() int64 {
	t := int64(d.Timeout)
	if !d.Deadline.IsZero() {
		r := int64(d.Deadline.Sub(zzsim.Now()))
		if r < 1 {
			r = 1
		}
		if t == 0 || r < t {
			t = r
		}
	}
	return t
}

// Dial ...
func (d *Dialer) Dial(network, address string) (net.Conn, error) {
	return dial(network, address, d.limit(), nil)
}

// DialContext ...
func (d *Dialer) DialContext(ctx context.Context, network, address string) (net.Conn, error) {
	t := d.limit()
	if at, ok := ctx.Deadline(); ok {
		r := int64(at.Sub(zzsim.Now()))
		if r < 1 {
			r = 1
		}
		if t == 0 || r < t {
			t = r
		}
	}
	return dial(network, address, t, ctx.Err)
}

// DialTCP ...
func DialTCP(network string, l, r *net.TCPAddr) (*TCPConn, error) {
	c, err := dial(network, r.String(), 0, nil)
	if err != nil {
		return nil, err
	}
	return c.(*TCPConn), nil
}

// DialUnix ...
func DialUnix(network string, l, r *net.UnixAddr) (*UnixConn, error) {
	c, err := dial(network, r.String(), 0, nil)
	if err != nil {
		return nil, err
	}
	return c.(*UnixConn), nil
}

// wait sleeps until at, in slices if the dial can be cancelled.
func wait(at int64, cancelled func() error) error {
	for zzsim.NowNano() < at {
		step := at
		if cancelled != nil {
			if e := cancelled(); e != nil {
				return e
			}
			if s := zzsim.NowNano() + 5e6; s < step {
				step = s
			}
		}
		zzsim.SleepNano(step - zzsim.NowNano())
		if zzsim.Dying() {
			return net.ErrClosed
		}
	}
	if cancelled != nil {
		return cancelled()
	}
	return nil
}

func itoa(i int) string {
	if i == 0 {
		return "0"
	}
	var b [20]byte
	p := len(b)
	for i > 0 {
		p--
		b[p] = byte('0' + i%10)
		i /= 10
	}
	return string(b[p:])
}

func dial(network, address string, timeout int64, cancelled func() error) (net.Conn, error) {
	if zzsim.Dying() {
		return nil, net.ErrClosed
	}
	zzsim.S(-56)
	n := N()
	node := zzsim.CurNode().Name
	k, err := key(network, address)
	if err != nil {
		return nil, &net.OpError{Op: "dial", Net: network, Err: err}
	}
	network = short(network)
	start := zzsim.NowNano()
	nth := n.dialCount[node]
	n.dialCount[node]++
	id := node + "#" + itoa(nth)
	at := &Attempt{Node: node, Net: network, Addr: address, Start: start, Timeout: timeout}
	n.Attempts = append(n.Attempts, at)
	ra := addr{network, address}
	bad := func(e error) (net.Conn, error) {
		at.End = zzsim.NowNano()
		at.Err = e.Error()
		zzsim.Logf("dial %s %s: %v", id, address, e)
		return nil, &net.OpError{Op: "dial", Net: network, Addr: ra, Err: e}
	}
	fate := ""
	if n.DialFault != nil {
		fate = n.DialFault(node, nth, address)
	}
	if fate != "" {
		zzsim.Count("fault.dial-"+fate, 1)
	}
	limit := int64(127e9)
	if timeout > 0 && timeout < limit {
		limit = timeout
	}
	rng := zzsim.NewRng(zzsim.Mix(zzsim.W().Seed, "dial", id))
	if network == "unix" {
		l := n.listeners[k]
		if fate == "refuse" {
			return bad(syscall.ECONNREFUSED)
		}
		if l == nil || n.paths[k] != l {
			if _, ok := n.paths[k]; ok {
				return bad(syscall.ECONNREFUSED)
			}
			return bad(syscall.ENOENT)
		}
		return establish(n, at, id, network, node, l, addr{"unix", "@"}, addr{"unix", address}), nil
	}
	rtt := func() int64 {
		c := n.Cfg
		d := c.MinDelay
		if c.MaxDelay > c.MinDelay {
			d += int64(rng.Uint64() % uint64(c.MaxDelay-c.MinDelay+1))
		}
		return d
	}
	there, back := rtt(), rtt()
	l := n.listeners[k]
	cut := false
	if l != nil {
		cut = n.cuts[linkKey(node, l.nodeName)]
	} else {
		cut = n.cuts[linkKey(node, "addr:"+k)]
	}
	if fate == "drop" || cut {
		if e := wait(start+limit, cancelled); e != nil {
			return bad(e)
		}
		return bad(timeoutErr{})
	}
	if fate == "late" {
		back = limit + 1
	}
	if there >= limit {
		if e := wait(start+limit, cancelled); e != nil {
			return bad(e)
		}
		return bad(timeoutErr{})
	}
	if e := wait(start+there, cancelled); e != nil {
		return bad(e)
	}
	l = n.listeners[k]
	if fate == "refuse" || l == nil || l.closed {
		if there+back > limit {
			if e := wait(start+limit, cancelled); e != nil {
				return bad(e)
			}
			return bad(timeoutErr{})
		}
		if e := wait(start+there+back, cancelled); e != nil {
			return bad(e)
		}
		return bad(syscall.ECONNREFUSED)
	}
	n.port++
	ca := addr{"tcp", "10.0.0.1:" + itoa(n.port)}
	c := establish(n, at, id, network, node, l, ca, ra)
	if there+back > limit {
		e := wait(start+limit, cancelled)
		if !zzsim.Dying() {
			base(c).doClose()
			at.Conn = nil
		}
		if e != nil {
			return bad(e)
		}
		return bad(timeoutErr{})
	}
	if e := wait(start+there+back, cancelled); e != nil {
		if !zzsim.Dying() {
			base(c).doClose()
			at.Conn = nil
		}
		return bad(e)
	}
	at.End = zzsim.NowNano()
	return c, nil
}

func establish(n *Net, at *Attempt, id, network, node string, l *listener, ca, sa addr) net.Conn {
	a, b, ia, ib := newPair(n, id, network, node, l.nodeName, ca, sa)
	p := &Pair{ID: id, Client: a, Server: b, ClientNode: node, ServerNode: l.nodeName, Addr: sa.s, EstablishedAt: zzsim.NowNano()}
	a.pair, b.pair = p, p
	n.Pairs = append(n.Pairs, p)
	at.Conn = p
	if network == "unix" {
		at.End = zzsim.NowNano()
	}
	l.backlog = append(l.backlog, ib)
	zzsim.Notify(l.key_())
	zzsim.Logf("connect %s -> %s", id, sa.s)
	if n.OnPair != nil {
		n.OnPair(p)
	}
	return ia
}

// Pipe is the standard synchronous in-memory connection.
func Pipe() (net.Conn, net.Conn) {
	n := N()
	node := zzsim.CurNode().Name
	n.dialCount["pipe"]++
	_, _, a, b := newPair(n, "pipe#"+itoa(n.dialCount["pipe"]), "pipe", node, node, addr{"pipe", "pipe"}, addr{"pipe", "pipe"})
	return a, b
}

// ---------------------------------------------------------------- faults and observation

// Reset kills a connection from the middle: both ends get an RST.
func (p *Pair) Reset() {
	zzsim.Count("fault.reset", 1)
	p.Client.reset(syscall.ECONNRESET)
	p.Server.reset(syscall.ECONNRESET)
}

// FailWrite makes the client's (dir 0) or server's (dir 1) write that crosses
// byte n of that direction accept only up to n and fail.
func (p *Pair) FailWrite(dir int, n int64) {
	pi := p.Client.out
	if dir == 1 {
		pi = p.Server.out
	}
	pi.failAt = n
	pi.failErr = syscall.ECONNRESET
}

// FailWriteSoft is FailWrite with an error that leaves the connection usable
// (no buffer space): only the writer knows that something is missing.
func (p *Pair) FailWriteSoft(dir int, n int64) {
	pi := p.Client.out
	if dir == 1 {
		pi = p.Server.out
	}
	pi.failAt = n
	pi.failSoft = true
	pi.failErr = syscall.ENOBUFS
}

// Disarm takes back write failures that have not happened yet.
func (p *Pair) Disarm() {
	p.Client.out.failAt = -1
	p.Server.out.failAt = -1
}

// FailedAt is the position at which a write of a direction failed, or -1.
func (p *Pair) FailedAt(dir int) int64 {
	if dir == 0 {
		return p.Client.out.FailedAt
	}
	return p.Server.out.FailedAt
}

// Stall delays delivery in a direction until the simulated time at.
func (p *Pair) Stall(dir int, at int64) {
	zzsim.Count("fault.stall", 1)
	pi := p.Client.out
	if dir == 1 {
		pi = p.Server.out
	}
	if at > pi.stallUntil {
		pi.stallUntil = at
	}
}

// Record keeps everything accepted in a direction.
func (p *Pair) Record(dir int) {
	if dir == 0 {
		p.Client.out.record = true
	} else {
		p.Server.out.record = true
	}
}

// Wire returns the recorded bytes accepted in a direction.
func (p *Pair) Wire(dir int) []byte {
	if dir == 0 {
		return p.Client.out.all
	}
	return p.Server.out.all
}

// Sent and Arrived count the bytes of a direction.
func (p *Pair) Sent(dir int) int64 {
	if dir == 0 {
		return p.Client.out.sent
	}
	return p.Server.out.sent
}

// Arrived ...
func (p *Pair) Arrived(dir int) int64 {
	if dir == 0 {
		return p.Client.out.arrived
	}
	return p.Server.out.arrived
}

// ClosedBy reports whether the client (0) or server (1) side socket is closed locally.
func (p *Pair) ClosedBy(side int) bool {
	if side == 0 {
		return p.Client.closed
	}
	return p.Server.closed
}

// Broken reports whether the side got an error or end of stream.
func (p *Pair) Broken(side int) bool {
	c := p.Client
	if side == 1 {
		c = p.Server
	}
	return c.err != nil || c.in.finArr
}

// Listening reports whether somebody listens on the address.
func (n *Net) Listening(network, address string) bool {
	k, err := key(network, address)
	if err != nil {
		return false
	}
	l := n.listeners[k]
	if l == nil {
		return false
	}
	if network == "unix" {
		return n.paths[k] == l
	}
	return true
}

// OpenListeners counts the live listeners of a node.
func (n *Net) OpenListeners(node string) (c int) {
	for _, l := range n.listeners {
		if l.nodeName == node {
			c++
		}
	}
	return
}

// OpenConns counts the node's sockets that are not closed locally.
func (n *Net) OpenConns(node string) (c int) {
	for _, s := range n.socks {
		if s.nodeName == node && !s.closed {
			c++
		}
	}
	return
}

// PathExists reports whether a socket file exists.
func (n *Net) PathExists(p string) bool { _, ok := n.paths[p]; return ok }

// RemovePath removes a socket file; reports whether it existed.
func (n *Net) RemovePath(p string) bool {
	_, ok := n.paths[p]
	delete(n.paths, p)
	return ok
}

// PutStale creates a socket file nobody listens on (left over from a crash).
func (n *Net) PutStale(p string) {
	n.paths[p] = &listener{closed: true, network: "unix", key: p}
}

// PairOf returns the pair a connection belongs to.
func PairOf(c net.Conn) *Pair {
	if b := base(c); b != nil {
		return b.pair
	}
	return nil
}

// ListenConfig ...
type ListenConfig struct {
	Control         func(network, address string, c syscall.RawConn) error
	KeepAlive       time.Duration
	KeepAliveConfig net.KeepAliveConfig
}

// Listen ...
func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (net.Listener, error) {
	return Listen(network, address)
}
