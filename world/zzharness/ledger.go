package main

import (
	"bytes"
	"fmt"
	"strconv"

	"ustack/zzsim"
)

// lmsg is a message of a ledger.
type lmsg struct {
	tag, seq, size int
	lane           string // sender and receiver; order is checked per lane
	at             int64  // when it was queued
	must           bool   // has to be delivered by the end
	got            int
	gotAt          int64
}

// ledger knows every message that was sent by its content.
type ledger struct {
	h     *H
	codec int
	msgs  map[[2]int]*lmsg
	order []*lmsg
	last  map[string]int // lane -> last seq delivered
	loose bool           // do not check the order
}

func newLedger(h *H, codec int) *ledger {
	return &ledger{h: h, codec: codec, msgs: map[[2]int]*lmsg{}, last: map[string]int{}}
}

const minTagged = 14

// make registers a message of (about) the given size.
func (l *ledger) make(lane string, tag, seq, size, room int) (*lmsg, interface{}) {
	if size < minTagged {
		size = minTagged
	}
	b := fit(l.codec, tag, seq, size, room)
	if len(b) < minTagged {
		return nil, nil
	}
	m := &lmsg{tag: tag, seq: seq, size: len(b), lane: lane, at: zzsim.NowNano()}
	if l.msgs[[2]int{tag, seq}] != nil {
		panic("ledger: duplicate message")
	}
	l.msgs[[2]int{tag, seq}] = m
	l.order = append(l.order, m)
	return m, pack(l.codec, seq, b)
}

// find identifies a delivered message; anything unknown or altered is a violation.
func (l *ledger) find(where string, x interface{}) *lmsg {
	l.h.Obs()
	b, ok := unpack(l.codec, x)
	if !ok {
		l.h.Fail("wrong-type", "%s: delivered message has type %T", where, x)
		return nil
	}
	i := bytes.IndexByte(b, '.')
	j := bytes.IndexByte(b, '/')
	if i > 0 && j > i {
		tag, e1 := strconv.Atoi(string(b[:i]))
		seq, e2 := strconv.Atoi(string(b[i+1 : j]))
		if e1 == nil && e2 == nil {
			if m := l.msgs[[2]int{tag, seq}]; m != nil {
				if !bytes.Equal(b, payload(tag, seq, m.size)) {
					l.h.Fail("corrupted", "%s: message %d.%d was altered: sent %d bytes, delivered %s", where, tag, seq, m.size, brief(b))
				}
				return m
			}
		}
	}
	l.h.Fail("unexpected-message", "%s: delivered something nobody sent: %s", where, brief(b))
	return nil
}

// arrive checks a delivery at a place: known, unaltered, for this lane's
// receiver, not a duplicate, in order.
func (l *ledger) arrive(where string, x interface{}, okLane func(*lmsg) bool) *lmsg {
	m := l.find(where, x)
	if m == nil {
		return nil
	}
	if okLane != nil && !okLane(m) {
		l.h.Fail("misrouted", "%s: got message %d.%d of lane %s", where, m.tag, m.seq, m.lane)
	}
	m.got++
	m.gotAt = zzsim.NowNano()
	if m.got > 1 {
		l.h.Fail("duplicate", "%s: message %d.%d delivered %d times", where, m.tag, m.seq, m.got)
	}
	if !l.loose {
		if p, ok := l.last[m.lane]; ok && p > m.seq {
			l.h.Fail("reordered", "%s: lane %s: message %d delivered after %d", where, m.lane, m.seq, p)
		}
		l.last[m.lane] = m.seq
	}
	zzsim.Logf("delivered %s %d.%d", where, m.tag, m.seq)
	return m
}

func (l *ledger) missing() *lmsg {
	for _, m := range l.order {
		if m.must && m.got == 0 {
			return m
		}
	}
	return nil
}

// settle waits until every message that has to arrive has arrived.
func (l *ledger) settle(patience int64, why string) {
	last := -1
	for {
		m := l.missing()
		if m == nil {
			return
		}
		n := 0
		for _, x := range l.order {
			n += x.got
		}
		if n == last {
			l.h.Fail("lost-message", "lane %s: message %d.%d (%d bytes, queued at %d us) was never delivered, nothing for %d s %s", m.lane, m.tag, m.seq, m.size, m.at/us, patience/sec, why)
			return
		}
		last = n
		l.h.Wait(patience, func() bool { return l.missing() == nil })
	}
}

func lane(from, to interface{}) string { return fmt.Sprintf("%v->%v", from, to) }
