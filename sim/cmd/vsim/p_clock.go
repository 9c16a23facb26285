package main

import (
	"fmt"
	"strings"
	"time"

	"verif/sim/plan"
)

// C06: calls under a clock that ticks, jumps and rolls over while they run.

// otherClock is where calls that bring their own current time are judged.
var otherClock = time.Date(1987, 3, 31, 22, 58, 3, 5, time.UTC)

func clockOracle(v *vsim, run *plan.Run, res *plan.RunResult, ref refFn) (*violation, error) {
	if x := failureViolation(res); x != nil {
		return x, nil
	}
	if len(res.Clock) >= 8000 {
		v.st.probe("runs not judged: clock log full", 1)
		return nil, nil
	}
	for c := range run.Clients {
		for k, op := range run.Clients[c] {
			o := res.Ops[c][k]
			if !o.Done {
				return &violation{"unfinished", fmt.Sprintf("client %d op %d %s never finished", c, k, opText(op))}, nil
			}
			v.count(op, o)
			if op.Cfg != nil && op.Cfg.Prev {
				continue
			}
			spec := plan.ParserSpec{}
			if op.Parser >= 0 && op.Parser < len(run.Parsers) {
				spec = run.Parsers[op.Parser]
			}
			vals := []time.Time{}
			if op.Cfg != nil && op.Cfg.Now != "" {
				vals = append(vals, otherClock)
			} else {
				at := run.Clock
				for _, e := range res.Clock {
					if e.Seq <= o.Start {
						at = e.At
					}
				}
				// what the caller itself read first; then what it may have been before
				var own, other []time.Time
				for _, e := range res.Clock {
					switch {
					case e.Seq <= o.Start || e.Seq > o.End:
					case e.Task == c:
						own = append(own, e.At)
					default:
						other = append(other, e.At)
					}
				}
				n := min(len(own), 2)
				vals = append(append(append(append(vals, own[:n]...), at), own[n:]...), other...)
			}
			seen := map[int64]bool{}
			var wants []string
			ok := false
			for _, t := range vals {
				if seen[t.UnixNano()] {
					continue
				}
				if len(seen) == 60 {
					v.st.probe("operations not judged: too many values of the clock", 1)
					ok = true
					break
				}
				seen[t.UnixNano()] = true
				want, err := ref(op, spec, t, run.Local)
				if err != nil {
					return nil, err
				}
				if want.S == o.S {
					ok = true
					break
				}
				if len(wants) < 6 {
					wants = append(wants, fmt.Sprintf("at %s: %s", t.Format(time.RFC3339Nano), want.S))
				}
			}
			if len(seen) > 1 || len(vals) > 1 {
				v.st.probe("operations during which the clock changed", 1)
			}
			if !ok {
				cls := "clock"
				if op.Cfg != nil && op.Cfg.Now != "" {
					cls = "clock read although the current time is given"
				}
				return &violation{cls, fmt.Sprintf("client %d op %d %s\n    returned %s\n    with the clock standing still it returns\n      %s",
					c, k, opText(op), o.S, strings.Join(wants, "\n      "))}, nil
			}
		}
	}
	return nil, nil
}

// clockFaults draws what the clock does during a run.
func clockFaults(r *rng, run *plan.Run, reads int) {
	edge := run.Clock
	if r.p(3, 4) {
		// stand just before a boundary
		y, m := edge.Year(), edge.Month()
		switch r.n(6) {
		case 0:
			edge = time.Date(y, m, edge.Day(), 0, 0, 0, 0, time.UTC)
		case 1:
			edge = time.Date(y, m, 1, 0, 0, 0, 0, time.UTC)
		case 2, 3:
			edge = time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC)
		case 4:
			edge = time.Date(y-y%4, 2, 29, 0, 0, 0, 0, time.UTC)
		case 5:
			edge = time.Date(y-y%10, 1, 1, 0, 0, 0, 0, time.UTC)
		}
		run.Clock = edge.Add(-time.Duration(1+r.n(2000)) * time.Millisecond)
	}
	if r.p(1, 3) {
		run.Tick = int64(pick(r, []time.Duration{time.Nanosecond, time.Millisecond, time.Second, time.Minute, time.Hour, 7 * time.Hour, 24 * time.Hour, 31 * 24 * time.Hour, -time.Second, -24 * time.Hour}))
	}
	for n := r.in(1, 3); n > 0; n-- {
		at := edge.Add(time.Duration(r.in(0, 3000)) * time.Millisecond)
		switch r.n(9) {
		case 0:
			at = edge
		case 1:
			at = run.Clock.AddDate(0, 0, r.in(-40, 40))
		case 2:
			at = run.Clock.AddDate(r.in(-12, 12), 0, 0)
		case 3:
			at = run.Clock.Add(-time.Duration(r.in(1, 100000)) * time.Second)
		case 4:
			at = someClock(r)
		case 5:
			at = edge.Add(24*time.Hour - time.Nanosecond)
		}
		rd := r.in(1, 6)
		if r.p(2, 3) {
			rd = r.in(1, max(reads, 1)+2)
		}
		run.ClockEv = append(run.ClockEv, plan.ClockEvent{Task: r.n(len(run.Clients)), Read: rd, At: at.UTC()})
	}
}

func init() {
	props["C06"] = &prop{
		quick: 48,
		rule:  "a run is 1-2 callers on a clock that starts at a seeded instant, mostly just before the end of a day, month or year, and ticks with every reading and jumps at seeded readings; distinct: schedule hash, calls; every call compared with itself on a clock standing still at each of the values the clock had while it ran",
		job: func(v *vsim, id int) (*suspect, error) {
			t := tjob{name: "C06", uo: stdOpts, runs: 130, life: 260, judge: clockOracle,
				ro: ropts{minClients: 1, maxClients: 2, maxOps: 3, sameParser: 60}}
			t.uo.clockSet, t.uo.helpers, t.uo.bases = 20, 14, 16
			switch id % 3 {
			case 1:
				t.uo.search = 45
			case 2:
				t.ro.maxClients = 1
			}
			t.mod = func(r *rng, u *universe) {
				// strings whose result depends on the current time
				for i := range u.ops {
					op := &u.ops[i]
					if op.Kind == "parse" && r.p(2, 5) && (op.Cfg == nil || op.Cfg.Now == "") {
						g := plan.Cfg{}
						if op.Cfg != nil {
							g = *op.Cfg
						}
						g.Languages, g.Locales = []string{"en"}, nil
						op.Str, op.Formats = timely(r)
						op.Cfg = &g
					}
				}
			}
			t.after = func(r *rng, u *universe, run *plan.Run) {
				n := 1
				for _, c := range run.Clients {
					for _, op := range c {
						if op.Ref > 0 {
							n = max(n, u.prof[op.Ref-1].Reads)
						}
					}
				}
				clockFaults(r, run, n)
			}
			return v.table(id, t)
		},
		oracle: caseOracle(clockOracle),
		assume: []string{"the clock is only observable through time.Now, time.Since and time.Until, which all read the simulated clock"},
	}
}

// timely makes an English string whose meaning depends on the current time.
func timely(r *rng) (string, []string) {
	switch r.n(12) {
	case 0:
		return pick(r, []string{"today", "yesterday", "tomorrow", "now"}), nil
	case 1:
		return fmt.Sprintf("%d %s ago", r.in(1, 40), pick(r, units)), nil
	case 2:
		return fmt.Sprintf("in %d %s", r.in(1, 40), pick(r, units)), nil
	case 3:
		return pick(r, weekdays), nil
	case 4:
		return fmt.Sprintf("%d %s", r.in(1, 31), pick(r, months)), nil
	case 5:
		return fmt.Sprintf("%d:%02d", r.n(24), r.n(60)), nil
	case 6:
		return pick(r, months), nil
	case 7:
		return fmt.Sprintf("%02d/%02d/%02d", r.in(1, 12), r.in(1, 28), r.n(100)), nil
	case 8:
		return fmt.Sprintf("%02d%02d%02d", r.n(100), r.in(1, 12), r.in(1, 28)), nil
	case 9:
		return fmt.Sprintf("%d %s", r.in(1, 28), pick(r, months)), []string{"2 January", "January", "15:04"}
	case 10:
		return fmt.Sprintf("%d", r.in(1, 31)), nil
	default:
		return fmt.Sprintf("%s %d:%02d %s", pick(r, weekdays), r.in(1, 12), r.n(60), pick(r, []string{"am", "pm", "PST", "UTC"})), nil
	}
}
