package main

import (
	"crypto/sha256"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/sim/instr"
	"verif/sim/plan"
)

// violation of a property. Class is stable under minimisation.
type violation struct {
	Class string `json:"class"`
	Msg   string `json:"message"`
}

// Case is a replay file: everything needed to execute a violation again.
type Case struct {
	Property string            `json:"property"`
	Class    string            `json:"class"`
	Message  string            `json:"message"`
	Seed     int64             `json:"verif_seed"`
	Note     string            `json:"note,omitempty"`
	Boot     Boot              `json:"boot"`
	Runs     []*plan.Run       `json:"runs"` // executed in order in one fresh process; the oracle judges the last one
	Extra    map[string]string `json:"extra,omitempty"`
	Sites    map[string]string `json:"sites,omitempty"` // source positions of the pre-emption points
}

type vsim struct {
	root  string // /verif
	repo  string
	tmp   string
	plain *instr.Built
	race  *instr.Built
	corp  *corpus
	prop  string
	seed  int64
	tier  string
	procs int

	refMu sync.Mutex
	refs  map[string]plan.Outcome

	st     stats
	known  []knownFinding
	start0 time.Time
	stop   atomic.Bool
	end    time.Time    // of the exploration
	next   atomic.Int64 // next job
}

type knownFinding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // open or fixed
	Commit   string `json:"commit,omitempty"`
	What     string `json:"what"`
	Class    string `json:"class,omitempty"` // open findings: class and pattern of the message identify it
	Match    string `json:"match,omitempty"`
	rx       *regexp.Regexp
}

// knownPath is the list of findings; open entries are not reported again.
func (v *vsim) loadKnown() error {
	b, err := os.ReadFile(filepath.Join(v.root, "known-findings.json"))
	if errors.Is(err, os.ErrNotExist) {
		return nil
	}
	if err != nil {
		return err
	}
	if err := json.Unmarshal(b, &v.known); err != nil {
		return err
	}
	for i := range v.known {
		if v.known[i].Match != "" {
			v.known[i].rx = regexp.MustCompile(v.known[i].Match)
		}
	}
	return nil
}

func (v *vsim) isKnown(x *violation) bool {
	for _, k := range v.known {
		if k.Status == "open" && k.Property == v.prop && k.Class == x.Class && k.rx != nil && k.rx.MatchString(x.Msg) {
			return true
		}
	}
	return false
}

func (v *vsim) getRef(k string) (plan.Outcome, bool) {
	v.refMu.Lock()
	defer v.refMu.Unlock()
	o, ok := v.refs[k]
	return o, ok
}

func (v *vsim) putRef(k string, o plan.Outcome) {
	v.refMu.Lock()
	defer v.refMu.Unlock()
	if len(v.refs) > 400000 {
		clear(v.refs)
	}
	v.refs[k] = o
}

// oracle judges the last run of a case, given the results of all of them.
type oracle func(c *Case, res []*plan.RunResult, races []string) (*violation, error)

// evaluate executes a case in a fresh process and judges it.
func (v *vsim) evaluate(c *Case, orc oracle) (*violation, []*plan.RunResult, error) {
	p, err := v.start(c.Boot)
	if err != nil {
		return nil, nil, err
	}
	defer p.Close()
	var res []*plan.RunResult
	for i, r := range c.Runs {
		x, err := p.Exec(r, runLimit)
		if err != nil {
			if e, ok := err.(errCrash); ok {
				if i == len(c.Runs)-1 {
					return &violation{"crash", e.Error()}, res, nil
				}
				return nil, res, nil
			}
			return nil, res, err
		}
		res = append(res, x)
		if x.Failure != "" && i != len(c.Runs)-1 {
			return nil, res, nil
		}
	}
	races := p.Races()
	y, err := orc(c, res, races)
	return y, res, err
}

// found handles a violation seen during exploration: it is confirmed in a
// fresh process, minimised, written to a replay file and reported.
type found struct {
	c   *Case
	v   *violation
	ord int
}

func cloneRun(r *plan.Run) *plan.Run {
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	x := &plan.Run{}
	if err := json.Unmarshal(b, x); err != nil {
		panic(err)
	}
	return x
}

func (c *Case) clone() *Case {
	d := *c
	d.Runs = nil
	for _, r := range c.Runs {
		d.Runs = append(d.Runs, cloneRun(r))
	}
	return &d
}

// confirm looks for a reproduction: the run alone, then with the runs that
// preceded it in its process.
func (v *vsim) confirm(boot Boot, hist []*plan.Run, x *violation, extra map[string]string, orc oracle) (*found, error) {
	last := hist[len(hist)-1]
	for _, runs := range [][]*plan.Run{{last}, hist} {
		for try := 0; try < 2; try++ {
			c := &Case{Property: v.prop, Boot: boot, Runs: runs, Extra: extra, Seed: v.seed}
			y, res, err := v.evaluate(c.clone(), orc)
			if err != nil {
				return nil, err
			}
			if y == nil {
				continue
			}
			// make the schedule explicit
			d := c.clone()
			for i, r := range d.Runs {
				if i < len(res) && !res[i].Overflow && !r.IsReplay {
					makeExplicit(r, res[i])
				}
			}
			z, _, err := v.evaluate(d.clone(), orc)
			if err != nil {
				return nil, err
			}
			if z != nil && z.Class == y.Class {
				return &found{c: d, v: z}, nil
			}
			return &found{c: c.clone(), v: y}, nil
		}
	}
	v.st.mu.Lock()
	v.st.extra["not_confirmed"] = x.Class + ": " + x.Msg
	v.st.mu.Unlock()
	return nil, nil
}

func makeExplicit(r *plan.Run, res *plan.RunResult) {
	r.IsReplay = true
	r.Replay = append([]plan.Point(nil), res.Trace...)
	r.Gap, r.Targets, r.HotSites, r.HotProb = 0, nil, nil, 0
}

// minimise shrinks the case while the violation keeps its class.
func (v *vsim) minimise(f *found, orc oracle, limit time.Duration) *found {
	end := time.Now().Add(limit)
	evals := 0
	test := func(c *Case) *violation {
		if time.Now().After(end) {
			return nil
		}
		evals++
		x, _, err := v.evaluate(c.clone(), orc)
		if err != nil || x == nil || x.Class != f.v.Class {
			return nil
		}
		return x
	}
	// first returns the first candidate that still fails, testing in parallel.
	first := func(cands []*Case) bool {
		for lo := 0; lo < len(cands); lo += v.procs {
			if time.Now().After(end) {
				return false
			}
			hi := min(lo+v.procs, len(cands))
			out := make([]*violation, hi-lo)
			var wg sync.WaitGroup
			var mu sync.Mutex
			for i := lo; i < hi; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					x := func() *violation {
						if time.Now().After(end) {
							return nil
						}
						mu.Lock()
						evals++
						mu.Unlock()
						x, _, err := v.evaluate(cands[i].clone(), orc)
						if err != nil || x == nil || x.Class != f.v.Class {
							return nil
						}
						return x
					}()
					out[i-lo] = x
				}()
			}
			wg.Wait()
			for i, x := range out {
				if x != nil {
					f = &found{c: cands[lo+i], v: x}
					return true
				}
			}
		}
		return false
	}
	_ = test
	cand := func(mod func(c *Case) bool) *Case {
		c := f.c.clone()
		if !mod(c) {
			return nil
		}
		return c
	}
	// generic ddmin over a list of n elements
	ddmin := func(n func() int, remove func(c *Case, lo, hi int)) {
		size := n() / 2
		for size >= 1 && time.Now().Before(end) {
			var cs []*Case
			for lo := 0; lo < n(); lo += size {
				hi := min(lo+size, n())
				c := f.c.clone()
				remove(c, lo, hi)
				cs = append(cs, c)
			}
			if !first(cs) {
				size /= 2
			} else if size > n() {
				size = n()
			}
		}
	}
	lastRun := func(c *Case) *plan.Run { return c.Runs[len(c.Runs)-1] }

	for round := 0; round < 3 && time.Now().Before(end); round++ {
		before := caseSize(f.c)
		// earlier runs
		ddmin(func() int { return len(f.c.Runs) - 1 }, func(c *Case, lo, hi int) { c.Runs = append(c.Runs[:lo], c.Runs[hi:]...) })
		// clients and operations of the remaining runs
		for ri := len(f.c.Runs) - 1; ri >= 0 && ri >= len(f.c.Runs)-4; ri-- {
			for again := true; again && time.Now().Before(end); {
				again = false
				var cs []*Case
				for i := range f.c.Runs[ri].Clients {
					if len(f.c.Runs[ri].Clients) > 1 {
						cs = append(cs, cand(func(c *Case) bool { dropClient(c.Runs[ri], i); return true }))
					}
				}
				again = first(cs)
			}
			for ci := 0; ci < len(f.c.Runs[ri].Clients); ci++ {
				ddmin(func() int {
					if n := len(f.c.Runs[ri].Clients[ci]); n > 1 {
						return n
					}
					return 0
				}, func(c *Case, lo, hi int) { dropOps(c.Runs[ri], ci, lo, hi) })
			}
		}
		// schedule
		for ri := len(f.c.Runs) - 1; ri >= 0 && ri >= len(f.c.Runs)-2; ri-- {
			if f.c.Runs[ri].IsReplay {
				ddmin(func() int { return len(f.c.Runs[ri].Replay) }, func(c *Case, lo, hi int) {
					r := c.Runs[ri]
					r.Replay = append(r.Replay[:lo], r.Replay[hi:]...)
				})
			}
			ddmin(func() int { return len(f.c.Runs[ri].ClockEv) }, func(c *Case, lo, hi int) {
				r := c.Runs[ri]
				r.ClockEv = append(r.ClockEv[:lo], r.ClockEv[hi:]...)
			})
		}
		// switches of the run and of the operations
		var cs []*Case
		add := func(mod func(r *plan.Run) bool) {
			if c := cand(func(c *Case) bool { return mod(lastRun(c)) }); c != nil {
				cs = append(cs, c)
			}
		}
		add(func(r *plan.Run) bool { x := r.MapMode != 0; r.MapMode = 0; return x })
		add(func(r *plan.Run) bool { x := r.Scribble; r.Scribble = false; return x })
		add(func(r *plan.Run) bool { x := r.Local != ""; r.Local = ""; return x })
		add(func(r *plan.Run) bool { x := r.Tick != 0; r.Tick = 0; return x })
		lr := lastRun(f.c)
		for ci := range lr.Clients {
			for k := range lr.Clients[ci] {
				op := lr.Clients[ci][k]
				if op.Fault != nil {
					add(func(r *plan.Run) bool { r.Clients[ci][k].Fault = nil; return true })
				}
				if op.Shared > 0 {
					add(func(r *plan.Run) bool { r.Clients[ci][k].Shared = 0; return true })
				}
				if op.Cfg != nil && op.Shared == 0 {
					for _, m := range cfgSimpler(op.Cfg) {
						add(func(r *plan.Run) bool { r.Clients[ci][k].Cfg = m; return true })
					}
				}
			}
		}
		for first(cs) && time.Now().Before(end) {
			// restart from the smaller case with the same list of simplifications
			cs = cs[:0]
			lr := lastRun(f.c)
			for ci := range lr.Clients {
				for k := range lr.Clients[ci] {
					op := lr.Clients[ci][k]
					if op.Cfg != nil && op.Shared == 0 {
						for _, m := range cfgSimpler(op.Cfg) {
							add(func(r *plan.Run) bool { r.Clients[ci][k].Cfg = m; return true })
						}
					}
				}
			}
		}
		if caseSize(f.c) >= before {
			break
		}
	}
	v.st.minEvals.Add(int64(evals))
	f.c.Note = fmt.Sprintf("minimised with %d executions", evals)
	return f
}

func caseSize(c *Case) int {
	b, _ := json.Marshal(c.Runs)
	return len(b)
}

// cfgSimpler lists configurations with one thing less.
func cfgSimpler(g *plan.Cfg) []*plan.Cfg {
	var out []*plan.Cfg
	add := func(c bool, f func(x *plan.Cfg)) {
		if c {
			x := *g
			f(&x)
			out = append(out, &x)
		}
	}
	add(g.Region != "", func(x *plan.Cfg) { x.Region = "" })
	add(g.Given, func(x *plan.Cfg) { x.Given = false })
	add(g.DefLangs != nil, func(x *plan.Cfg) { x.DefLangs = nil })
	add(g.Order != "", func(x *plan.Cfg) { x.Order = "" })
	add(g.NowTZ != "", func(x *plan.Cfg) { x.NowTZ = "" })
	add(g.TZ != "", func(x *plan.Cfg) { x.TZ = "" })
	add(g.PDOM != 0, func(x *plan.Cfg) { x.PDOM = 0 })
	add(g.PMOY != 0, func(x *plan.Cfg) { x.PMOY = 0 })
	add(g.PDS != 0, func(x *plan.Cfg) { x.PDS = 0 })
	add(g.Strict, func(x *plan.Cfg) { x.Strict = false })
	add(g.Required != nil, func(x *plan.Cfg) { x.Required = nil })
	add(g.Skip != nil, func(x *plan.Cfg) { x.Skip = nil })
	add(g.TimePer, func(x *plan.Cfg) { x.TimePer = false })
	add(g.EOM, func(x *plan.Cfg) { x.EOM = false })
	for i := range g.Languages {
		add(len(g.Languages) > 1, func(x *plan.Cfg) {
			x.Languages = append(append([]string{}, g.Languages[:i]...), g.Languages[i+1:]...)
		})
	}
	return out
}

func dropClient(r *plan.Run, i int) {
	r.Clients = append(r.Clients[:i], r.Clients[i+1:]...)
	var pts []plan.Point
	for _, p := range r.Replay {
		if p.Task == i || p.To == i {
			continue
		}
		if p.Task > i {
			p.Task--
		}
		if p.To > i {
			p.To--
		}
		pts = append(pts, p)
	}
	r.Replay = pts
	var ts []plan.Target
	for _, t := range r.Targets {
		if t.Task == i {
			continue
		}
		if t.Task > i {
			t.Task--
		}
		ts = append(ts, t)
	}
	r.Targets = ts
	var es []plan.ClockEvent
	for _, e := range r.ClockEv {
		if e.Task == i {
			continue
		}
		if e.Task > i {
			e.Task--
		}
		es = append(es, e)
	}
	r.ClockEv = es
}

func dropOps(r *plan.Run, c, lo, hi int) {
	ops := r.Clients[c]
	r.Clients[c] = append(append([]plan.Op{}, ops[:lo]...), ops[hi:]...)
	var pts []plan.Point
	for _, p := range r.Replay {
		if p.Task == c && p.Op > lo && p.Op <= hi {
			continue
		}
		if p.Task == c && p.Op > hi {
			p.Op -= hi - lo
		}
		pts = append(pts, p)
	}
	r.Replay = pts
}

// write stores the replay file and returns its path.
func (v *vsim) write(f *found) (string, error) {
	f.c.Class, f.c.Message = f.v.Class, f.v.Msg
	sites := v.sitesOf(f.c.Boot)
	f.c.Sites = map[string]string{}
	for _, r := range f.c.Runs {
		for i := range r.Replay {
			if s := r.Replay[i].Site; s >= 16 && int(s-16) < len(sites) {
				r.Replay[i].At = sites[s-16].Pos
				f.c.Sites[fmt.Sprint(s)] = sites[s-16].Pos + " " + sites[s-16].Func
			}
		}
	}
	b, err := json.MarshalIndent(f.c, "", " ")
	if err != nil {
		return "", err
	}
	dir := filepath.Join(v.root, "replays")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	path := filepath.Join(dir, fmt.Sprintf("%s-%x.json", v.prop, sha256.Sum256(b))[:len(v.prop)+13]+".json")
	return path, os.WriteFile(path, append(b, '\n'), 0o644)
}

func (v *vsim) sitesOf(b Boot) []instr.Site {
	if b.Race && v.race != nil {
		return v.race.Sites
	}
	if v.plain != nil {
		return v.plain.Sites
	}
	return nil
}

// stats is what the evidence file reports.
type stats struct {
	runs, ops, refRuns, minEvals, universes    atomic.Int64
	steps, switches, preempts, reads, mapIters atomic.Int64
	jumps, simTime, races, nontrivial          atomic.Int64
	nCrash, nHist                              atomic.Int64

	mu       sync.Mutex
	hashes   map[uint64]struct{}
	faults   map[string]int64
	outcomes map[string]int64
	samples  []string
	extra    map[string]any
	probes   map[string]int64
}

func (s *stats) probe(name string, n int64) {
	s.mu.Lock()
	s.probes[name] += n
	s.mu.Unlock()
}

func (v *vsim) count(op plan.Op, o plan.OpResult) {
	v.st.ops.Add(1)
	k := o.S
	if i := strings.IndexByte(k, '|'); i > 0 {
		k = k[:i]
	}
	if len(k) > 12 {
		k = "value"
	}
	v.st.mu.Lock()
	v.st.outcomes[op.Kind+":"+k]++
	if op.Fault != nil && o.Fire {
		v.st.faults["callback "+op.Fault.Where+" "+op.Fault.Kind]++
	}
	v.st.mu.Unlock()
}

func (v *vsim) tally(run *plan.Run, res *plan.RunResult) {
	s := &v.st
	s.runs.Add(1)
	s.steps.Add(int64(res.Steps))
	s.switches.Add(int64(res.Switches))
	s.preempts.Add(int64(res.Preempts))
	s.reads.Add(int64(res.Reads))
	s.mapIters.Add(int64(res.MapIters))
	s.jumps.Add(int64(res.Jumps))
	s.simTime.Add(res.SimTime)
	s.races.Add(int64(res.Races))
	s.mu.Lock()
	defer s.mu.Unlock()
	h := res.Hash
	for _, c := range run.Clients {
		for _, op := range c {
			h = h*1099511628211 ^ uint64(op.Ref) ^ uint64(len(op.Str))<<7
		}
	}
	nOps := 0
	for _, c := range run.Clients {
		nOps += len(c)
	}
	trivial := nOps < 2 && res.Preempts == 0 && res.Jumps == 0 && run.Tick == 0 && run.MapMode == 0 && run.Local == ""
	if _, ok := s.hashes[h]; !ok && !trivial {
		s.hashes[h] = struct{}{}
	}
	if res.Preempts > 0 {
		s.nontrivial.Add(1)
		s.faults["pre-emption"] += int64(res.Preempts)
	}
	if run.MapMode != 0 && res.MapIters > 0 {
		s.faults["map order permuted"] += int64(res.MapIters)
	}
	if res.Jumps > 0 {
		s.faults["clock jump"] += int64(res.Jumps)
	}
	if len(s.samples) < 3 && !trivial {
		b, _ := json.Marshal(run)
		if len(b) > 3000 {
			b = append(b[:3000], "..."...)
		}
		s.samples = append(s.samples, string(b))
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// evidence writes /verif/evidence/<id>.json.
func (v *vsim) evidence(level string, rule string, violations int, assumptions []string) error {
	s := &v.st
	if assumptions == nil {
		assumptions = []string{}
	}
	wall := time.Since(v.start0).Seconds()
	b := v.plain
	if b == nil {
		b = v.race
	}
	cov := map[string]any{
		"evaluations":                  s.runs.Load(),
		"distinct_nontrivial":          len(s.hashes),
		"rule":                         rule,
		"samples":                      s.samples,
		"operations_judged":            s.ops.Load(),
		"reference_runs":               s.refRuns.Load(),
		"universes":                    s.universes.Load(),
		"worker_processes_started":     procStarts.Load(),
		"yields_executed":              s.steps.Load(),
		"context_switches":             s.switches.Load(),
		"preemptions":                  s.preempts.Load(),
		"clock_reads":                  s.reads.Load(),
		"controlled_map_iterations":    s.mapIters.Load(),
		"simulated_time_seconds":       float64(s.simTime.Load()) / 1e9,
		"faults_injected":              s.faults,
		"outcomes":                     s.outcomes,
		"probes":                       s.probes,
		"runs_and_seeds_per_hour":      int64(float64(s.runs.Load()) / wall * 3600),
		"minimisation_executions":      s.minEvals.Load(),
		"yield_sites":                  b.Report.Sites,
		"yield_sites_on_shared_data":   b.Report.SharedSites,
		"seams_rewritten":              b.Report.Seams,
		"components_real":              append([]string{"Go runtime and standard library"}, b.Report.Packages...),
		"components_real_uncontrolled": append([]string{}, b.Report.Uninstr...),
		"components_stubbed":           []string{"time.Now and timers (simulated clock)", "sync (simulated blocking, deterministic Pool)", "goroutine scheduling", "map iteration order", "caller callbacks (generated)"},
		"not_controlled":               b.Report.Unsupported,
	}
	for k, x := range s.extra {
		cov[k] = x
	}
	e := map[string]any{
		"property": v.prop, "tier": v.tier, "seed": v.seed, "level": level,
		"coverage": cov, "assumptions": assumptions, "wall_s": wall, "violations": violations,
	}
	out, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		return err
	}
	dir := filepath.Join(v.root, "evidence")
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, v.prop+".json"), append(out, '\n'), 0o644)
}
