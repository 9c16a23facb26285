package main

import (
	"encoding/json"
	"fmt"
	"time"

	"verif/sim/plan"
)

// selftest shows that one seed is one execution: runs of every kind are executed
// in two processes and once more from their recorded schedule, and must agree in
// every result, clock reading, pre-emption and step.
func (v *vsim) selftest() int {
	if err := v.build(true); err != nil {
		return v.fatal(err)
	}
	bad, n := 0, 0
	key := func(r *plan.RunResult, trace bool) string {
		x := *r
		x.Heap = nil
		if !trace {
			x.Trace, x.Hash, x.Overflow = nil, 0, false
		}
		b, _ := json.Marshal(x)
		return string(b)
	}
	for id := 0; id < 24; id++ {
		r := newRng(v.seed, "selftest", id)
		u := v.corp.universe(id, r, stdOpts)
		u.prof = make([]profile, len(u.ops))
		boot := Boot{Race: id%4 == 3, MapMode: id % 3, MapSeed: uint64(id)}
		var runs []*plan.Run
		for k := 0; k < 12; k++ {
			run := u.mkRun(r, k, ropts{minClients: 2, maxClients: 5, maxOps: 3, shareCfg: 30, sameParser: 60, faults: 10, locals: localZones, maxSteps: maxCost})
			run.MapMode, run.MapSeed = id%3, r.next()
			if r.p(1, 2) {
				run.Tick = int64(time.Hour)
			}
			runs = append(runs, run)
		}
		exec := func(runs []*plan.Run) ([]*plan.RunResult, error) {
			p, err := v.start(boot)
			if err != nil {
				return nil, err
			}
			defer p.Close()
			var res []*plan.RunResult
			for _, run := range runs {
				x, err := p.Exec(cloneRun(run), runLimit)
				if err != nil {
					return res, err
				}
				res = append(res, x)
				if x.Failure != "" {
					break
				}
			}
			return res, nil
		}
		a, err := exec(runs)
		if err != nil {
			return v.fatal(err)
		}
		b, err := exec(runs)
		if err != nil {
			return v.fatal(err)
		}
		var re []*plan.Run
		for i := range a {
			c := cloneRun(runs[i])
			if !a[i].Overflow {
				makeExplicit(c, a[i])
			}
			re = append(re, c)
		}
		c, err := exec(re)
		if err != nil {
			return v.fatal(err)
		}
		for i := range a {
			n++
			switch {
			case i >= len(b) || key(a[i], true) != key(b[i], true):
				fmt.Printf("universe %d run %d: two processes differ\n", id, i)
				bad++
			case i >= len(c) || key(a[i], false) != key(c[i], false):
				fmt.Printf("universe %d run %d: the recorded schedule replays differently\n", id, i)
				if i < len(c) {
					x, y := key(a[i], false), key(c[i], false)
					for d := 0; d < len(x) && d < len(y); d++ {
						if x[d] != y[d] {
							fmt.Printf("  %.300s\n  %.300s\n", x[max(0, d-150):], y[max(0, d-150):])
							break
						}
					}
				}
				bad++
			}
		}
	}
	fmt.Printf("selftest: %d runs executed three times, %d differ\n", n, bad)
	if bad > 0 {
		return 1
	}
	return 0
}
