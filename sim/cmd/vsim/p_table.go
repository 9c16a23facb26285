package main

import (
	"fmt"
	"strings"
	"time"

	"verif/sim/plan"
)

// The properties decided by comparing results with reference results.

var props = map[string]*prop{}

type tjob struct {
	name      string
	uo        uopts
	ro        ropts
	runs      int // runs per universe
	life      int // runs per worker process
	boot      Boot
	keep      bool // parsers survive from run to run
	disagree  bool // references that depend on their order are violations
	stallOnly bool
	build     func(r *rng) *universe // another kind of universe
	mod       func(r *rng, u *universe)
	after     func(r *rng, u *universe, run *plan.Run) // completes a run
	noRef     bool                                     // no references are needed: every operation is met in the runs only
	judge     func(v *vsim, run *plan.Run, res *plan.RunResult, ref refFn) (*violation, error)
}

// table explores one universe.
func (v *vsim) table(id int, t tjob) (*suspect, error) {
	r := newRng(v.seed, t.name, id)
	var u *universe
	if t.build != nil {
		u = t.build(r)
	} else {
		u = v.corp.universe(id, r, t.uo)
	}
	if t.mod != nil {
		t.mod(r, u)
	}
	v.st.universes.Add(1)
	u.prof = make([]profile, len(u.ops))
	var hist [2][]*plan.Run
	var differ []int
	if !t.noRef {
		var err error
		if hist, differ, err = v.references(u, true); err != nil {
			return nil, err
		}
	}
	if t.disagree {
		for _, i := range differ {
			op := u.ops[i]
			if op.Cfg != nil && op.Cfg.Prev {
				continue
			}
			want, err := v.ref(op, u.spec(op), u.clock, u.local)
			if err != nil {
				return nil, err
			}
			for d := 0; d < 2; d++ {
				k := i
				if d == 1 {
					k = len(u.ops) - 1 - i
				}
				if k >= len(hist[d]) {
					continue
				}
				return &suspect{boot: u.boot, hist: hist[d][:k+1], alt: hist[1-d][:min(len(u.ops)-k, len(hist[1-d]))],
					x: &violation{"result", "the result depends on the order of calls; alone it is " + want.S}}, nil
			}
		}
	}
	if v.halted() {
		return nil, nil
	}
	if t.ro.maxSteps == 0 {
		t.ro.maxSteps = maxCost
	}
	judge := t.judge
	if judge == nil {
		judge = (*vsim).tableOracle
	}
	s := v.session(t.boot, t.life)
	defer s.close()
	rf := v.refer(400)
	defer rf.close()
	var inst []plan.ParserSpec
	for k := 0; k < t.runs && !v.halted(); k++ {
		run := u.mkRun(r, k, t.ro)
		if t.keep {
			if inst == nil || s.p == nil || s.p.dead || s.p.nRuns >= t.life {
				inst = append([]plan.ParserSpec{}, u.specs...)
				for i := range inst {
					inst = append(inst, inst[i]) // two parsers of each kind
				}
			} else {
				run.Keep = true
			}
			run.Parsers = inst
			for c := range run.Clients {
				for i := range run.Clients[c] {
					op := &run.Clients[c][i]
					if op.Parser >= 0 {
						// Ref tells which operation it was
						sp := 0
						if op.Ref > 0 {
							sp = max(u.ops[op.Ref-1].Parser, 0)
						} else {
							sp = op.Spec
						}
						op.Parser = sp + r.n(2)*len(u.specs)
					}
				}
			}
		}
		if t.after != nil {
			t.after(r, u, run)
		}
		res, x, err := s.exec(run)
		if err != nil {
			return nil, err
		}
		if x == nil {
			if x, err = judge(v, run, res, rf.get); err != nil {
				return nil, err
			}
		}
		if x != nil {
			return s.suspect(x), nil
		}
	}
	return nil, nil
}

func withRace(o oracle) oracle {
	return func(c *Case, res []*plan.RunResult, races []string) (*violation, error) {
		for _, t := range races {
			if x := raceViolation(t); x != nil {
				return x, nil
			}
		}
		return nil, nil
	}
}

// raceViolation classifies a report of the race detector; reports that do not
// involve the library are not about the library.
func raceViolation(text string) *violation {
	var tops []string
	inLib := false
	section := ""
	for _, l := range strings.Split(text, "\n") {
		t := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(t, "Read at"), strings.HasPrefix(t, "Write at"), strings.HasPrefix(t, "Previous"),
			strings.HasPrefix(t, "Atomic"), strings.HasPrefix(t, "[failed"):
			section = strings.ToLower(strings.Fields(strings.TrimPrefix(strings.ToLower(t), "previous "))[0])
		case strings.HasPrefix(t, "Goroutine"):
			section = ""
		case section != "" && t != "" && strings.HasSuffix(t, ")") && strings.Contains(t, "(") && !strings.Contains(t, ".go:"):
			name := t[:strings.LastIndex(t, "(")]
			if strings.Contains(name, "zzsim") {
				continue
			}
			if strings.Contains(name, "go-dateparser") || strings.Contains(name, "/") && strings.Contains(strings.Split(name, "/")[0], ".") {
				inLib = true
			}
			if i := strings.LastIndex(name, "/"); i >= 0 {
				name = name[i+1:]
			}
			tops = append(tops, section+" in "+name)
			section = ""
		}
	}
	if !inLib {
		return nil
	}
	if len(tops) > 1 && tops[0] > tops[1] {
		tops[0], tops[1] = tops[1], tops[0]
	}
	return &violation{"data race: " + strings.Join(tops, " / "), "data race: " + strings.Join(tops, " / ") + "\n" + text}
}

func faultJudge(v *vsim, run *plan.Run, res *plan.RunResult, ref refFn) (*violation, error) {
	return v.tableOracle(run, res, ref)
}

// localOracle compares every operation with its reference under UTC.
func localOracle(v *vsim, run *plan.Run, res *plan.RunResult, ref refFn) (*violation, error) {
	if x := failureViolation(res); x != nil {
		return x, nil
	}
	for c := range run.Clients {
		for k, op := range run.Clients[c] {
			o := res.Ops[c][k]
			if !o.Done {
				return &violation{"unfinished", fmt.Sprintf("client %d op %d %s never finished", c, k, opText(op))}, nil
			}
			v.count(op, o)
			if op.Cfg != nil && op.Cfg.Prev {
				continue
			}
			spec := plan.ParserSpec{}
			if op.Parser >= 0 && op.Parser < len(run.Parsers) {
				spec = run.Parsers[op.Parser]
			}
			want, err := ref(op, spec, run.Clock, "")
			if err != nil {
				return nil, err
			}
			if want.S == o.S || want.I == o.I && plan.IsStamp(op.Str) {
				continue
			}
			return &violation{"local zone", fmt.Sprintf("client %d op %d %s on a host in zone %q at %s\n    returned %s\n    on a host in UTC it returns %s",
				c, k, opText(op), run.Local, run.Clock.Format(time.RFC3339Nano), o.S, want.S)}, nil
		}
	}
	return nil, nil
}

func caseOracle(f func(v *vsim, run *plan.Run, res *plan.RunResult, ref refFn) (*violation, error)) func(v *vsim) oracle {
	return func(v *vsim) oracle {
		return func(c *Case, res []*plan.RunResult, races []string) (*violation, error) {
			return f(v, c.Runs[len(c.Runs)-1], res[len(res)-1], v.ref)
		}
	}
}

var localZones = []string{"America/New_York", "Asia/Kolkata", "Pacific/Apia", "Pacific/Kiritimati", "+50400", "-43200", "Europe/London", "Australia/Lord_Howe", "Asia/Tehran", "Africa/Monrovia", "America/Santiago", "+86399", "-86399"}

func with(o uopts, f func(*uopts)) uopts { f(&o); return o }

func init() {
	props["C01"] = &prop{
		quick: 72, rule: "a run is 2-6 concurrent callers with 1-3 calls each under one seeded schedule; distinct: schedule hash and calls; every operation compared with the same call alone in a fresh process",
		job: func(v *vsim, id int) (*suspect, error) {
			t := tjob{name: "C01", uo: stdOpts, runs: 150, life: 300,
				ro: ropts{minClients: 2, maxClients: 4, maxOps: 3, shareCfg: 30, sameParser: 60, reuse: 20}}
			switch id % 6 {
			case 1: // long-lived parsers
				t.keep = true
			case 3: // many callers on few calls
				t.ro.maxClients, t.ro.maxOps = 6, 2
				t.uo.bases, t.uo.variants = 5, 3
			case 4:
				t.uo.helpers = 40
			case 5: // a fresh process for every few runs: first use of everything is concurrent
				t.life, t.runs = 3, 60
			}
			if id%2 == 0 {
				t.uo.theme = 100
			}
			return v.table(id, t)
		},
		oracle: tableCase,
		assume: []string{"interleaving is explored at statement granularity inside the library and the instrumented dependencies; code of the Go standard library executes atomically"},
	}
	props["C02"] = &prop{
		race: true, quick: 32, wall: 200 * time.Second,
		rule: "a run is 2-4 concurrent callers under one seeded schedule in a race-detector build whose hand-overs between callers create no happens-before edge; distinct: schedule hash and calls; a violation is a race report whose accesses are in the library or its dependencies",
		job: func(v *vsim, id int) (*suspect, error) {
			t := tjob{name: "C02", runs: 40, life: 40, boot: Boot{Race: true}, uo: stdOpts,
				ro: ropts{minClients: 2, maxClients: 4, maxOps: 3, shareCfg: 55, sameParser: 70, faults: 4, maxSteps: 400_000, reuse: 25},
				judge: func(v *vsim, run *plan.Run, res *plan.RunResult, ref refFn) (*violation, error) {
					for c := range run.Clients {
						for k, op := range run.Clients[c] {
							v.count(op, res.Ops[c][k])
						}
					}
					if res.Races > 0 {
						return &violation{"data race", "data race"}, nil
					}
					return nil, nil
				}}
			t.uo.bases, t.uo.variants, t.uo.prev, t.uo.wide = 7, 3, 25, 2
			if id%4 == 3 {
				t.keep = true
			}
			if id%4 == 1 {
				t.life, t.runs = 4, 16
			}
			if id%8 == 6 {
				t.ro.maxSteps, t.runs = 4_000_000, 10
			}
			return v.table(id, t)
		},
		oracle: func(v *vsim) oracle { return withRace(nil) },
		assume: []string{"a race is only seen if both accesses are executed by the simulated calls, in any order", "sync.Pool hands nothing over in race builds, so it never orders accesses"},
	}
	props["C03"] = &prop{
		quick: 40, rule: "a run is a history of up to 60 calls of one caller (some failing or panicking in callbacks, some with previous-locale tracking) on parsers that live across runs; distinct: calls; every call without previous-locale tracking compared with the same call alone in a fresh process",
		job: func(v *vsim, id int) (*suspect, error) {
			t := tjob{name: "C03", uo: stdOpts, runs: 24, life: 60, keep: true, disagree: true,
				ro: ropts{minClients: 1, maxClients: 1, maxOps: 60, shareCfg: 30, sameParser: 100, faults: 12, reuse: 30}}
			t.uo.bases, t.uo.variants, t.uo.prev = 16, 4, 25
			switch id % 4 {
			case 1: // very many different calls, in two opposite orders
				t.uo.bases, t.uo.variants, t.runs, t.uo.wide = 220, 4, 8, 4
			case 2:
				t.uo.search = 45
			case 3:
				t.uo.deflt, t.uo.prev = 70, 50
			}
			return v.table(id, t)
		},
		oracle: tableCase,
	}
	props["C05"] = &prop{
		quick: 40, rule: "a run is one call in a process started with its own map iteration order, seeded per process and per loop (sorted, reversed, or shuffled), its own start time and its own stream for math/rand; distinct: call and process order; result compared with the one under sorted order",
		job:    jobC05,
		oracle: tableCase,
		assume: []string{"map iterations of the Go standard library are not controlled (none of the packages used here is known to leak one)"},
	}
	props["C07"] = &prop{
		quick: 40, rule: "a run is 1-4 callers of which some have a callback that panics, ends its goroutine, stalls, returns garbage or calls the library; distinct: schedule hash and calls; every other call and every call with a fault that did not fire compared with the call alone in a fresh process; panics must reach their caller",
		job: func(v *vsim, id int) (*suspect, error) {
			t := tjob{name: "C07", uo: stdOpts, runs: 110, life: 110, keep: id%2 == 0,
				ro: ropts{minClients: 1, maxClients: 4, maxOps: 5, shareCfg: 20, sameParser: 60, faults: 40}}
			t.uo.bases, t.uo.variants, t.uo.search, t.uo.prev = 9, 4, 22, 8
			t.mod = moreDetect
			if id%8 == 5 { // what a failing call leaves behind for calls that try previous locales
				t.keep, t.judge = false, prevOracle
				t.ro.maxClients, t.ro.maxOps = 2, 14
				t.build = func(r *rng) *universe { return v.corp.prevUniverse(id, r, 5) }
				t.after = func(r *rng, u *universe, run *plan.Run) {
					run.Note = "prev"
					plainFaults(run)
				}
			}
			return v.table(id, t)
		},
		oracle: func(v *vsim) oracle {
			table, prev := tableCase(v), caseOracle(prevOracle)(v)
			return func(c *Case, res []*plan.RunResult, races []string) (*violation, error) {
				if c.Runs[len(c.Runs)-1].Note == "prev" {
					return prev(c, res, races)
				}
				return table(c, res, races)
			}
		},
	}
	props["C09"] = &prop{
		quick: 36, rule: "a run is 1-3 callers that deep-compare everything they passed (spare capacity included) after each call and then overwrite it, the results included; distinct: schedule hash and calls; every result compared with the call alone in a fresh process",
		job: func(v *vsim, id int) (*suspect, error) {
			t := tjob{name: "C09", uo: stdOpts, runs: 110, life: 110, keep: id%3 != 2,
				ro: ropts{minClients: 1, maxClients: 3, maxOps: 8, shareCfg: 25, sameParser: 70, scribble: true, snapshot: true, reuse: 45}}
			t.after = func(r *rng, u *universe, run *plan.Run) { run.Empty = r.p(1, 2) }
			t.uo.bases, t.uo.variants, t.uo.search, t.uo.prev = 12, 4, 22, 10
			t.mod = func(r *rng, u *universe) {
				moreDetect(r, u)
				for i := range u.ops {
					if op := &u.ops[i]; op.Kind == "parse" && op.Parser == 0 && (op.Cfg == nil || !op.Cfg.Prev) && r.p(1, 5) {
						op.Kind, op.Parser = "own", -1
					}
					// the caller may set everything the library would otherwise complete
					if op := &u.ops[i]; op.Cfg != nil && r.p(1, 6) {
						g := *op.Cfg
						if g.Now == "" {
							g.Now = someNow(r).Format(time.RFC3339Nano)
						}
						if len(g.Skip) == 0 {
							g.Skip = pick(r, [][]string{{"t", "at"}, {"on"}, {"T", "Foo"}, {"um", "at"}})
						}
						if g.TZ == "" && r.p(1, 2) {
							g.TZ = pick(r, zones)
						}
						if op.Parser > 0 && u.specs[op.Parser].HasDet && r.p(1, 2) {
							g.Languages, g.Locales = nil, nil
						}
						op.Cfg = &g
					}
				}
			}
			return v.table(id, t)
		},
		oracle: tableCase,
	}
	props["C12"] = &prop{
		quick: 40, rule: "a run is a history of calls on a host with a seeded local zone at a seeded clock; distinct: calls, zone and clock; every result compared with the call on a host in UTC",
		job: func(v *vsim, id int) (*suspect, error) {
			t := tjob{name: "C12", uo: stdOpts, runs: 60, life: 120, judge: localOracle,
				ro: ropts{minClients: 1, maxClients: 2, maxOps: 30, sameParser: 60}}
			t.uo.clockSet = 15
			if id%2 == 0 {
				t.uo.deflt = 0 // the default parser survives runs; others start anew in every zone
			}
			u0 := t.mod
			t.mod = func(r *rng, u *universe) {
				if u0 != nil {
					u0(r, u)
				}
				edgeClock(r, u)
				if id%4 != 3 {
					aimGap(r, u)
				}
			}
			t.ro.locals = localZones
			return v.table(id, t)
		},
		oracle: caseOracle(localOracle),
	}
}

// edgeClock moves the clock of the universe near a boundary of days, months or
// years, where local zones see another calendar day.
func edgeClock(r *rng, u *universe) {
	y := r.in(1975, 2060)
	t := time.Date(y, time.Month(r.in(1, 12)), 1, 0, 0, 0, 0, time.UTC)
	if r.p(1, 3) {
		t = time.Date(y, 1, 1, 0, 0, 0, 0, time.UTC)
	}
	if r.p(1, 3) {
		t = t.AddDate(0, 0, r.n(28))
	}
	u.clock = t.Add(time.Duration(r.in(-13*3600, 13*3600)) * time.Second)
}

// moreDetect makes sure the universe has parsers with detection callbacks.
func moreDetect(r *rng, u *universe) {
	has := -1
	for i, s := range u.specs {
		if s.HasDet {
			has = i
		}
	}
	if has < 0 {
		u.specs = append(u.specs, plan.ParserSpec{HasDet: true, Detect: []string{pick(r, popular), "en", pick(r, popular)}, Alias: r.p(1, 2)})
		has = len(u.specs) - 1
	}
	for i := range u.ops {
		op := &u.ops[i]
		if (op.Kind == "parse" || op.Kind == "search") && r.p(1, 3) {
			op.Parser = has
			if op.Cfg != nil && r.p(4, 5) {
				g := *op.Cfg
				g.Languages, g.Locales = nil, nil
				op.Cfg = &g
			}
		}
	}
}

// plainFaults leaves only faults that end their call or delay it.
func plainFaults(run *plan.Run) {
	for c := range run.Clients {
		for k := range run.Clients[c] {
			if f := run.Clients[c][k].Fault; f != nil && (f.Kind == "garbage" || f.Kind == "reenter") {
				f.Kind, f.Arg = "panic", ""
			}
		}
	}
}

func jobC05(v *vsim, id int) (*suspect, error) {
	r := newRng(v.seed, "C05", id)
	o := with(stdOpts, func(o *uopts) { o.bases, o.variants, o.search, o.wide, o.clockSet = 40, 3, 25, 12, 40 })
	u := v.corp.universe(id, r, o)
	v.st.universes.Add(1)
	boots := []Boot{{}, {MapMode: 1}}
	for i := 0; i < 3; i++ {
		boots = append(boots, Boot{MapMode: 2, MapSeed: r.next() >> 2})
	}
	for i := 1; i < len(boots); i++ {
		boots[i].Clock = someClock(r).Format(time.RFC3339Nano)
	}
	base := v.refer(1 << 30)
	defer base.close()
	for bi, b := range boots {
		s := v.session(b, 1<<30)
		for k := range u.ops {
			if v.halted() {
				break
			}
			i := k
			if bi%2 == 1 {
				i = len(u.ops) - 1 - k
			}
			op := u.ops[i]
			if op.Cfg != nil && op.Cfg.Prev {
				continue
			}
			run := solo(op, u.spec(op), u.clock, u.local)
			if bi > 0 {
				run.MapMode, run.MapSeed = (bi+k)%3, r.next()
				if bi > 2 {
					run.MapMode = 2
				}
			}
			res, x, err := s.exec(run)
			if err == nil && x == nil {
				x, err = v.tableOracle(run, res, base.get)
			}
			if err != nil || x != nil {
				sus := s.suspect(x)
				s.close()
				if err != nil {
					return nil, err
				}
				return sus, nil
			}
		}
		s.close()
	}
	return nil, nil
}
