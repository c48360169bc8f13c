package main

import (
	"strconv"
	"time"

	"verif.local/vmc/vsched"
)

// SchedRun is one controlled execution.
type SchedRun struct {
	picks   []schedChoice
	prefix  []int
	Outcome string // "", "deadlock", "steplimit", "stalled"
	Panic   interface{}
	Coarse  bool     // statements are no scheduling points
	Delay   bool     // which goroutine goes on when one blocks counts against the bound, too
	Races   []string // unordered accesses to one map
	Steps   int
	Cost    int
}

type schedChoice struct {
	n, def, pick int
	free         bool
}

// pick decides one choice: the prefix's, or the default.
func (r *SchedRun) pick(n, def int, free bool) int {
	p := def
	if k := len(r.picks); k < len(r.prefix) {
		p = r.prefix[k]
		if p >= n {
			p = def
		}
	}
	r.picks = append(r.picks, schedChoice{n, def, p, free})
	return p
}

// Data is a choice of the environment among n, all of them explored.
func (r *SchedRun) Data(n int) int {
	if n < 2 {
		return 0
	}
	return r.pick(n, 0, true)
}

// Deviation is a choice of the environment that counts against the bound
// when it is not the first alternative.
func (r *SchedRun) Deviation(n int) int {
	if n < 2 {
		return 0
	}
	return r.pick(n, 0, false)
}

// Do runs f as the first managed goroutine.
func (r *SchedRun) Do(maxSteps int, f func()) {
	s := &vsched.Sched{MaxStep: maxSteps, Coarse: r.Coarse}
	s.Choose = func(n, cur, kind int) int {
		if cur >= 0 {
			return r.pick(n, cur, false)
		}
		return r.pick(n, 0, !r.Delay)
	}
	done := make(chan struct{})
	go func() {
		s.Run(f)
		close(done)
	}()
	select {
	case <-done:
		r.Outcome, r.Panic, r.Steps, r.Races = s.Outcome, s.Panic(), s.Steps, s.Races
	case <-time.After(20 * time.Second):
		// a goroutine waits in a way the scheduler does not control
		vsched.S = nil
		r.Outcome = "stalled"
	}
}

// Schedules explores every schedule with at most `bound` preemptions (and
// counted deviations; with Delay, departures from the oldest goroutine); f runs once per schedule and says whether to go on.
func (w *W) Schedules(bound, limit int, f func(r *SchedRun) bool) int {
	runs := 0
	var rec func(prefix []int, cost int)
	cut := false
	rec = func(prefix []int, cost int) {
		if cut || w.stop {
			return
		}
		if runs >= limit || (runs%64 == 63 && w.Late()) {
			cut = true
			return
		}
		r := &SchedRun{prefix: prefix, Cost: cost}
		ok := f(r)
		runs++
		w.Count("schedules", 1)
		w.R.Stats.Trans += int64(r.Steps)
		if !ok || r.Outcome == "stalled" {
			if r.Outcome == "stalled" {
				w.Count("uncontrolled", 1)
				cut = true
			}
			return
		}
		for i := len(prefix); i < len(r.picks); i++ {
			c := r.picks[i]
			extra := 1
			if c.free {
				extra = 0
			}
			if cost+extra > bound {
				continue
			}
			for alt := 0; alt < c.n; alt++ {
				if alt == c.def {
					continue
				}
				np := make([]int, i+1)
				for k := 0; k < i; k++ {
					np[k] = r.picks[k].pick
				}
				np[i] = alt
				rec(np, cost+extra)
			}
		}
	}
	rec(nil, 0)
	if cut {
		w.Count("schedules_cut", 1)
	}
	return runs
}

func (r *SchedRun) Trail() string {
	b := make([]byte, 0, len(r.picks))
	for _, c := range r.picks {
		b = strconv.AppendInt(b, int64(c.pick), 10)
	}
	return string(b)
}
