package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"

	"ustack"
	"ustack/zzsim"
)

// C13: copy-on-write snapshots are isolated across goroutines.

func init() {
	register(&Scenario{ID: "C13", Gen: genC13, Run: runC13, Min: map[string]int{"from": 0}})
}

func genC13(g *zzsim.Rng, p *Plan) {
	// finer schedules: the operations are short
	switch g.Intn(3) {
	case 0:
		p.Sched = zzsim.SchedConfig{Strategy: zzsim.StratRandom, P: []float64{0.05, 0.2, 0.5}[g.Intn(3)], StepNanos: 100}
	case 1:
		p.Sched = zzsim.SchedConfig{Strategy: zzsim.StratPCT, D: g.Range(2, 16), Len: []int{100, 400, 1500}[g.Intn(3)], StepNanos: 100}
	}
	p.P["cap"] = []int{8, 16, 40, 100}[g.Intn(4)]
	p.P["res"] = g.Intn(p.P["cap"] + 1)
	p.P["from"] = g.Intn(5)
	n := g.Range(2, 5)
	p.P["tasks"] = n
	p.add(0, "T0", "write", g.Range(1, 30))
	for t := 0; t < n; t++ {
		who := fmt.Sprintf("T%d", t)
		for i := g.Range(2, 12); i > 0; i-- {
			k := []string{"snap", "snap", "snap", "write", "whead", "read", "reset", "readfrom", "writeto", "typed", "thead", "tread", "peek", "byte", "drop"}[g.Intn(15)]
			p.add(0, who, k, g.Intn(8), g.Range(1, 1<<16), g.Range(0, 24))
		}
	}
}

// vbuf is a buffer with the model of what its owner sees.
type vbuf struct {
	n          int
	ub         *ustack.UBuf
	data       []byte
	head, tail int
	capa       int
}

func (v *vbuf) note() {
	v.head, v.tail, v.capa = v.ub.HeadWritableLength(), v.ub.TailWritableLength(), v.ub.Capacity()
}

// fits: a write into space the buffer had must succeed
func (v *vbuf) fits(h *H, ok bool, what string, n, space int) {
	if !ok {
		h.Fail("space-changed", "buffer %d: %s of %d bytes did not succeed although %d were free", v.n, what, n, space)
	}
}

// check compares a buffer with what its owner left.
func (v *vbuf) check(h *H, when string) {
	h.Obs()
	if n := v.ub.ReadableLength(); n != len(v.data) {
		h.Fail("length-changed", "buffer %d %s: %d bytes are readable, its owner left %d", v.n, when, n, len(v.data))
	}
	if a, b, c := v.ub.HeadWritableLength(), v.ub.TailWritableLength(), v.ub.Capacity(); a != v.head || b != v.tail || c != v.capa {
		h.Fail("space-changed", "buffer %d %s: space %d/%d of %d, its owner left %d/%d of %d", v.n, when, a, b, c, v.head, v.tail, v.capa)
	}
	if len(v.data) == 0 {
		return
	}
	b := make([]byte, len(v.data))
	k, err := v.ub.Peek(b)
	if err != nil || k != len(b) || !bytes.Equal(b, v.data) {
		h.Fail("content-changed", "buffer %d %s: content %x, its owner left %x", v.n, when, b[:k], v.data)
	}
}

type stepReader struct {
	b   []byte
	err error
}

func (r *stepReader) Read(p []byte) (int, error) {
	zzsim.S(-60)
	n := copy(p, r.b)
	r.b = r.b[n:]
	zzsim.S(-60)
	return n, r.err
}

type stepWriter struct {
	max int
	got []byte
}

func (r *stepWriter) Write(p []byte) (int, error) {
	zzsim.S(-61)
	if len(p) > r.max {
		p = p[:r.max]
	}
	r.got = append(r.got, p...)
	zzsim.S(-61)
	return len(p), nil
}

func typedBytes(k int, val uint64) (b []byte) {
	switch k {
	case 0:
		b = binary.BigEndian.AppendUint16(nil, uint16(val))
	case 1:
		b = binary.BigEndian.AppendUint32(nil, uint32(val))
	case 2:
		b = binary.BigEndian.AppendUint64(nil, val)
	case 3:
		b = binary.LittleEndian.AppendUint16(nil, uint16(val))
	case 4:
		b = binary.LittleEndian.AppendUint32(nil, uint32(val))
	case 5:
		b = binary.LittleEndian.AppendUint64(nil, val)
	case 6:
		b = binary.BigEndian.AppendUint16(nil, uint16(val))
	case 7:
		b = binary.BigEndian.AppendUint32(nil, uint32(val))
	case 8:
		b = binary.BigEndian.AppendUint64(nil, val)
	}
	return
}

// typedVal: which order the plain accessors have is not decided here, so what
// they write reads the same both ways.
func typedVal(k, seed int) uint64 {
	if k > 5 {
		return uint64(seed&255) * 0x0101010101010101
	}
	return uint64(seed) * 0x9e3779b97f4a7c15
}

func reversed(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return r
}

func writeTyped(ub *ustack.UBuf, k int, val uint64) error {
	switch k {
	case 0:
		return ub.WriteU16BE(uint16(val))
	case 1:
		return ub.WriteU32BE(uint32(val))
	case 2:
		return ub.WriteU64BE(val)
	case 3:
		return ub.WriteU16LE(uint16(val))
	case 4:
		return ub.WriteU32LE(uint32(val))
	case 6:
		return ub.WriteU16(uint16(val))
	case 7:
		return ub.WriteU32(uint32(val))
	case 8:
		return ub.WriteU64(val)
	}
	return ub.WriteU64LE(val)
}

func headTyped(ub *ustack.UBuf, k int, val uint64) error {
	switch k {
	case 0:
		return ub.WriteHeadU16BE(uint16(val))
	case 1:
		return ub.WriteHeadU32BE(uint32(val))
	case 2:
		return ub.WriteHeadU64BE(val)
	case 3:
		return ub.WriteHeadU16LE(uint16(val))
	case 4:
		return ub.WriteHeadU32LE(uint32(val))
	case 6:
		return ub.WriteHeadU16(uint16(val))
	case 7:
		return ub.WriteHeadU32(uint32(val))
	case 8:
		return ub.WriteHeadU64(val)
	}
	return ub.WriteHeadU64LE(val)
}

func readTyped(ub *ustack.UBuf, k int) (v uint64, n int, err error) {
	switch k {
	case 0:
		x, e := ub.ReadU16BE()
		return uint64(x), 2, e
	case 1:
		x, e := ub.ReadU32BE()
		return uint64(x), 4, e
	case 2:
		x, e := ub.ReadU64BE()
		return x, 8, e
	case 3:
		x, e := ub.ReadU16LE()
		return uint64(x), 2, e
	case 4:
		x, e := ub.ReadU32LE()
		return uint64(x), 4, e
	case 6:
		x, e := ub.ReadU16()
		return uint64(x), 2, e
	case 7:
		x, e := ub.ReadU32()
		return uint64(x), 4, e
	case 8:
		x, e := ub.ReadU64()
		return x, 8, e
	}
	v, err = ub.ReadU64LE()
	return v, 8, err
}

func peekTyped(ub *ustack.UBuf, k int) (v uint64, n int, err error) {
	switch k {
	case 0:
		x, e := ub.PeekU16BE()
		return uint64(x), 2, e
	case 1:
		x, e := ub.PeekU32BE()
		return uint64(x), 4, e
	case 2:
		x, e := ub.PeekU64BE()
		return x, 8, e
	case 3:
		x, e := ub.PeekU16LE()
		return uint64(x), 2, e
	case 4:
		x, e := ub.PeekU32LE()
		return uint64(x), 4, e
	case 6:
		x, e := ub.PeekU16()
		return uint64(x), 2, e
	case 7:
		x, e := ub.PeekU32()
		return uint64(x), 4, e
	case 8:
		x, e := ub.PeekU64()
		return x, 8, e
	}
	v, err = ub.PeekU64LE()
	return v, 8, err
}

func runC13(h *H) {
	nt := h.p("tasks")
	own := make([][]*vbuf, nt)
	ended := make([]bool, nt)
	count := 0
	reg := func(t int, ub *ustack.UBuf, data []byte) *vbuf {
		v := &vbuf{n: count, ub: ub, data: append([]byte(nil), data...)}
		count++
		v.note()
		own[t] = append(own[t], v)
		return v
	}
	var first *ustack.UBuf
	switch h.p("from") {
	case 0:
		first = ustack.UBufAllocWithHeadReserved(h.p("cap"), h.p("res"))
	case 1:
		first = ustack.UBufFromWithHeadReserved(make([]byte, h.p("cap")), h.p("res"))
	case 2:
		first = ustack.UBufFromWithHeadReserved(make([]byte, 0, h.p("cap")), h.p("res"))
	case 3:
		first = ustack.UBufAlloc(h.p("cap"))
	case 4:
		first = ustack.UBufFrom(payload(3, 3, h.p("cap")))
	}
	reg(0, first, nil)
	fill := func(seed, n int) []byte { return payload(seed, n, n) }
	step := func(t int, o Op) {
		if len(own[t]) == 0 {
			return
		}
		v := own[t][o.A%len(own[t])]
		ub := v.ub
		v.check(h, "before "+o.K)
		switch o.K {
		case "snap":
			typ := ustack.UBufSnapshotTypeCopyOnWrite
			if o.B%5 == 0 {
				typ = ustack.UBufSnapshotTypeCopyDirectly
			}
			nu := ustack.UBufMakeSnapshot(ub, typ)
			if nu == nil {
				h.Fail("no-snapshot", "no snapshot was made")
				return
			}
			zzsim.Count("fault.snapshot", 1)
			to := o.C % nt
			if ended[to] {
				to = t
			}
			w := reg(to, nu, v.data)
			if w.head != v.head || w.tail != v.tail {
				h.Fail("space-changed", "snapshot %d of buffer %d has space %d/%d, the buffer %d/%d", w.n, v.n, w.head, w.tail, v.head, v.tail)
			}
			if to == t {
				w.check(h, "just made")
			}
		case "write":
			b := fill(o.B, o.C)
			n, err := ub.Write(b)
			if len(b) > 0 && len(b) <= v.tail {
				v.fits(h, n == len(b) && err == nil, o.K, len(b), v.tail)
			}
			if n >= 0 && n <= len(b) {
				v.data = append(v.data, b[:n]...)
			}
		case "byte":
			if o.C%2 == 0 {
				if ub.WriteByte(byte(o.B)) == nil {
					v.data = append(v.data, byte(o.B))
				} else {
					v.fits(h, v.tail < 1, o.K, 1, v.tail)
				}
			} else if o.C%3 > 0 {
				if ub.WriteHeadByte(byte(o.B)) == nil {
					v.data = append([]byte{byte(o.B)}, v.data...)
				}
			} else if len(v.data) > 0 {
				c, err := ub.PeekByte()
				d, err2 := ub.ReadByte()
				if err != nil || err2 != nil || c != d || c != v.data[0] {
					h.Fail("content-changed", "buffer %d: peeked %x, read %x (%v, %v), its owner left %x", v.n, c, d, err, err2, v.data)
					return
				}
				v.data = v.data[1:]
			}
		case "whead":
			b := fill(o.B, o.C%9)
			if len(b) > 0 && ub.WriteHeadBytes(b) == nil {
				v.data = append(append([]byte(nil), b...), v.data...)
			}
		case "typed":
			val := typedVal(o.C%9, o.B)
			if writeTyped(ub, o.C%9, val) == nil {
				v.data = append(v.data, typedBytes(o.C%9, val)...)
			} else {
				n := len(typedBytes(o.C%9, val))
				v.fits(h, v.tail < n, o.K, n, v.tail)
			}
		case "thead":
			val := typedVal(o.C%9, o.B)
			if headTyped(ub, o.C%9, val) == nil {
				v.data = append(typedBytes(o.C%9, val), v.data...)
			} else {
				n := len(typedBytes(o.C%9, val))
				v.fits(h, v.head < n, o.K, n, v.head)
			}
		case "tread", "peek":
			f := readTyped
			if o.K == "peek" {
				f = peekTyped
			}
			val, n, err := f(ub, o.C%9)
			if err == nil {
				same := n <= len(v.data) && (bytes.Equal(typedBytes(o.C%9, val), v.data[:n]) ||
					o.C%9 > 5 && bytes.Equal(reversed(typedBytes(o.C%9, val)), v.data[:n]))
				if !same {
					h.Fail("content-changed", "buffer %d: %s of %d bytes gave %x, its owner left %x", v.n, o.K, n, val, v.data)
					return
				}
				if o.K == "tread" {
					v.data = v.data[n:]
				}
			}
		case "read":
			b := make([]byte, o.C)
			n, _ := ub.Read(b)
			if n > len(v.data) || !bytes.Equal(b[:n], v.data[:n]) {
				h.Fail("content-changed", "buffer %d: read %x, its owner left %x", v.n, b[:n], v.data)
				return
			}
			v.data = v.data[n:]
		case "reset":
			ub.Reset()
			v.data = nil
		case "readfrom":
			b := fill(o.B, o.C)
			r := &stepReader{b: b}
			if o.B%3 == 0 {
				r.err = io.EOF
			}
			n, _ := ub.ReadFrom(r)
			if n >= 0 && int(n) <= len(b) {
				v.data = append(v.data, b[:n]...)
			}
		case "writeto":
			wr := &stepWriter{max: o.C + 1}
			n, _ := ub.WriteTo(wr)
			if int(n) > len(v.data) || int(n) != len(wr.got) || !bytes.Equal(wr.got, v.data[:n]) {
				h.Fail("content-changed", "buffer %d: wrote %x (%d), its owner left %x", v.n, wr.got, n, v.data)
				return
			}
			v.data = v.data[n:]
		case "drop":
			if len(own[t]) > 1 {
				i := o.A % len(own[t])
				own[t] = append(own[t][:i], own[t][i+1:]...)
				return
			}
		}
		v.note()
		v.check(h, "after "+o.K)
	}
	done := 0
	for t := 0; t < nt; t++ {
		t := t
		ops := h.ops(fmt.Sprintf("T%d", t))
		h.Go("N", fmt.Sprintf("T%d", t), func() {
			for _, o := range ops {
				// wait for something to work on
				for i := 0; len(own[t]) == 0 && i < 40; i++ {
					h.Sleep(us)
				}
				zzsim.Logf("T%d %v", t, o)
				step(t, o)
			}
			ended[t] = true
			done++
		})
	}
	if !h.Wait(60*sec, func() bool { return done == nt }) {
		h.Fail("blocked", "buffer operations do not end")
	}
	for t := range own {
		for _, v := range own[t] {
			v.check(h, "at the end")
		}
	}
}
