package main

import (
	"sort"
	"time"

	"ustack/zzsim"
)

// minimise shrinks a failing plan: first operations and parameters under the
// plan's own search strategy, then the schedule decisions one by one.
func minimise(p *Plan, f *zzsim.Failure, budget time.Duration) (*Plan, *zzsim.Failure, int) {
	deadline := time.Now().Add(budget)
	tries := 0
	over := func() bool { return time.Now().After(deadline) }
	best := p.clone()
	bestF := f
	try := func(q *Plan, scheds int) bool {
		for s := 0; s < scheds && !over(); s++ {
			c := q.clone()
			if s > 0 {
				c.SchedSeed = zzsim.Mix(q.SchedSeed, "min", s)
			}
			tries++
			r := runPlan(c, false)
			if sameFailure(r.Fail, f) {
				best, bestF = c, r.Fail
				return true
			}
		}
		return false
	}
	half := time.Now().Add(budget * 6 / 10)
	for pass := 0; pass < 3 && time.Now().Before(half); pass++ {
		changed := false
		// operations, in halves then smaller
		for n := (len(best.Ops) + 1) / 2; n >= 1; n /= 2 {
			for i := 0; i+n <= len(best.Ops) && time.Now().Before(half); {
				q := best.clone()
				q.Ops = append(append([]Op(nil), q.Ops[:i]...), q.Ops[i+n:]...)
				if try(q, 6) {
					changed = true
				} else {
					i += n
				}
			}
			if n == 1 {
				break
			}
		}
		// parameters
		var ks []string
		for k := range scenarios[p.Prop].Min {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			v := scenarios[p.Prop].Min[k]
			if cur, ok := best.P[k]; ok && cur != v && time.Now().Before(half) {
				q := best.clone()
				q.P[k] = v
				if try(q, 4) {
					changed = true
				}
			}
		}
		// calmer network and scheduler
		q := best.clone()
		q.Net.SegMin, q.Net.SegMax, q.Net.ShortRd, q.Net.Window = 65536, 65536, 0, 65536
		if q.Net != best.Net && try(q, 4) {
			changed = true
		}
		if best.Sched.Strategy == zzsim.StratRandom && best.Sched.P > 0.004 {
			q := best.clone()
			q.Sched.P /= 4
			if try(q, 10) {
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	// explicit schedule
	r := runPlan(best, false)
	tries++
	if r.Fail == nil {
		return best, bestF, tries
	}
	tr := traceOf(best, r.World)
	r2 := runPlan(tr, false)
	tries++
	if !sameFailure(r2.Fail, r.Fail) {
		return best, r.Fail, tries // keep the seeded form
	}
	best, bestF = tr, r2.Fail
	for n := (len(best.Decisions) + 1) / 2; n >= 1; n /= 2 {
		for i := 0; i+n <= len(best.Decisions) && !over(); {
			q := best.clone()
			q.Decisions = append(append([]zzsim.Decision(nil), q.Decisions[:i]...), q.Decisions[i+n:]...)
			tries++
			r := runPlan(q, false)
			if sameFailure(r.Fail, f) {
				best, bestF = q, r.Fail
			} else {
				i += n
			}
		}
		if n == 1 {
			break
		}
	}
	return best, bestF, tries
}
