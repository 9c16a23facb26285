package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"verif/sim/plan"
)

// profile is where an operation goes when it runs alone.
type profile struct {
	Sites  []uint32
	Counts []uint32
	Steps  uint64
	Reads  int
	writes []int // those of Sites which are writeSites
}

// universe is a pool of operations that belong together (same strings under
// different configurations, overlapping languages) on one clock, with the
// result each of them has when it is the only call in a fresh process.
type universe struct {
	id    int
	rng   *rng
	clock time.Time
	local string
	home  string // zone preferred for hosts
	boot  Boot
	specs []plan.ParserSpec
	ops   []plan.Op // Parser is an index into specs, or -1
	prof  []profile
}

// uopts selects what a universe contains.
type uopts struct {
	bases    int  // distinct strings
	variants int  // configurations per string
	prev     int  // percentage of operations with TryPreviousLocales
	search   int  // percentage of searches
	wide     int  // percentage of operations over all locales
	helpers  int  // percentage of helper operations
	clockSet int  // percentage with CurrentTime set
	detect   bool // parsers with detection callbacks
	deflt    int  // percentage on the package level parser
	theme    int  // percentage of universes most of whose strings exercise one part
}

var stdOpts = uopts{bases: 11, variants: 4, search: 14, wide: 6, helpers: 12, clockSet: 40, detect: true, deflt: 25, theme: 40}

func (c *corpus) universe(id int, r *rng, o uopts) *universe {
	u := &universe{id: id, rng: r, clock: someClock(r), specs: []plan.ParserSpec{{}}}
	// two or three focus languages make the operations of a universe collide
	focus := []string{pick(r, popular), pick(r, popular)}
	if r.p(1, 2) {
		focus = append(focus, pick(r, c.names))
	}
	if o.detect {
		if r.p(2, 3) {
			l := append([]string{}, focus...)
			if r.p(1, 4) {
				l = append(l, pick(r, []string{"fr-CA", "xx", ""}))
			}
			u.specs = append(u.specs, plan.ParserSpec{HasDet: true, Detect: l, Alias: r.p(1, 2)})
		}
		if r.p(1, 3) {
			u.specs = append(u.specs, plan.ParserSpec{Types: pick(r, [][]int{{4}, {2}, {0, 1}, {5, 4}, {4, 2, 5}, {3, 4}, {2, 4, 5, 0}, {9}})})
		}
	}
	theme := -1
	if r.p(o.theme, 100) {
		theme = r.n(nThemes)
		if o.theme >= 100 {
			theme = id / 2 % nThemes
		}
	}
	like := "" // a string of this universe
	for i := 0; i < o.bases; i++ {
		var base plan.Op
		lang, aspect := "", -1
		cfg := &plan.Cfg{}
		k := r.n(100)
		switch {
		case k < o.search:
			var s string
			s, lang = c.searchText(r, pick(r, append(focus, "")))
			base = plan.Op{Kind: "search", Str: s}
			if r.p(1, 4) {
				base.Kind = "searchlang"
				base.Lang = lang
				if base.Lang == "" {
					base.Lang = pick(r, focus)
				}
			}
			cfg.Languages = c.langList(r, lang)
			if r.p(o.wide, 300) {
				cfg.Languages = nil
			}
		case k < o.search+o.helpers:
			switch r.n(8) {
			case 0, 1, 2:
				base = plan.Op{Kind: "hijri", Str: hijriStr(r, c)}
				aspect, base.Str = calendarAspect(r, base.Str)
			case 3, 4:
				base = plan.Op{Kind: "jalali", Str: jalaliStr(r, c)}
				aspect, base.Str = calendarAspect(r, base.Str)
			case 5, 6:
				s, _ := c.str(r)
				base = plan.Op{Kind: "poptz", Str: s + " " + pick(r, abbrs)}
			default:
				base = plan.Op{Kind: pick(r, []string{"known", "order"}), Str: pick(r, []string{"en", "fr-CA", "xx", pick(r, c.names), c.locale(r, "")})}
			}
		default:
			s, l := c.str(r)
			if r.p(1, 2) {
				l = pick(r, focus)
				s = c.phrase(r, l)
			}
			lang = l
			base = plan.Op{Kind: "parse", Str: s}
			if r.p(1, 12) {
				base.Str, base.Formats = formatted(r)
			}
			cfg.Languages = c.langList(r, lang)
			if r.p(1, 2) {
				cfg.Languages = append([]string{}, focus...)
				if lang != "" && r.p(1, 2) {
					cfg.Languages = append(cfg.Languages, lang)
				}
			}
			if r.p(o.wide, 100) {
				cfg.Languages = nil
			}
			if r.p(1, 4) {
				aspect = pick(r, aspects)
				base.Str, base.Formats, lang = pick(r, sensitive[aspect]), nil, "en"
				cfg.Languages = []string{"en"}
				if r.p(1, 3) {
					cfg.Languages = append(cfg.Languages, focus...)
				}
			}
		}
		if base.Kind == "parse" && len(base.Formats) == 0 {
			switch {
			case like != "" && r.p(1, 6), like != "" && theme >= 0 && r.p(1, 4):
				base.Str = near(r, like)
			case theme >= 0 && r.p(3, 5):
				base.Str = c.themed(r, theme, focus[0])
				cfg.Languages = append([]string{focus[0]}, cfg.Languages...)
			}
			if like == "" || r.p(1, 3) {
				like = base.Str
			}
		}
		if r.p(o.clockSet, 100) {
			cfg.Now = someNow(r).Format(time.RFC3339Nano)
		}
		for j := 0; j < o.variants; j++ {
			op := base
			g := *cfg
			switch {
			case j > 0 && aspect >= 0 && r.p(3, 4):
				c.varyAspect(r, &g, lang, aspect)
			case j > 0:
				for n := r.in(1, 2); n > 0; n-- {
					c.vary(r, &g, lang)
				}
			}
			if op.Kind == "poptz" || op.Kind == "known" || op.Kind == "order" {
				if j > 0 {
					break
				}
				u.ops = append(u.ops, op)
				break
			}
			if r.p(o.prev, 100) && op.Kind != "hijri" && op.Kind != "jalali" {
				g.Prev = true
			}
			op.Cfg = &g
			if r.p(1, 40) && len(g.Languages) == 0 || r.p(1, 10) && aspect >= 0 && op.Kind == "parse" {
				op.Cfg = nil // English is tried first
			}
			switch {
			case op.Kind == "hijri" || op.Kind == "jalali":
			case r.p(o.deflt, 100) && op.Kind != "searchlang":
				op.Parser = -1
			case len(u.specs) > 1 && r.p(1, 3):
				op.Parser = r.n(len(u.specs))
				if u.specs[op.Parser].HasDet && r.p(1, 2) && (op.Kind == "parse" || op.Kind == "search") {
					g2 := g
					g2.Languages, g2.Locales = nil, nil
					op.Cfg = &g2
				}
			}
			u.ops = append(u.ops, op)
		}
	}
	for i := range u.ops {
		u.ops[i].Ref = i + 1
	}
	return u
}

// calendarAspect makes some calls of the other calendars depend on what the
// string leaves out.
func calendarAspect(r *rng, s string) (int, string) {
	if r.p(1, 2) {
		return -1, s
	}
	if r.p(2, 3) {
		s = pick(r, []string{"10:30", "12", "1440", "1394", "10/12", "مهر", "رمضان", "1440-09", "آبان ۱۳۹۵", "رمضان 1440", "08:30 PM", "5", "03/1436", "خرداد", "12 مهر"})
	}
	return pick(r, []int{12, 12, 12, 11, 7, 8, 14}), s
}

// solo is the run that executes one operation alone.
func solo(op plan.Op, spec plan.ParserSpec, clock time.Time, local string) *plan.Run {
	if op.Parser > 0 {
		op.Parser = 0
	}
	op.Shared = 0
	return &plan.Run{Clock: clock, Local: local, Parsers: []plan.ParserSpec{spec}, Clients: [][]plan.Op{{op}}, Budget: stepBudget}
}

const (
	stepBudget = 1_500_000_000
	maxCost    = 20_000_000 // operations that cost more are left out of most runs
	runLimit   = 240 * time.Second
)

func refKey(op plan.Op, spec plan.ParserSpec, clock time.Time, local string) string {
	if op.Parser > 0 {
		op.Parser = 0
	}
	if op.Parser < 0 || op.Kind == "hijri" || op.Kind == "jalali" {
		spec = plan.ParserSpec{}
	}
	op.Shared, op.Ref, op.Spec = 0, 0, 0
	b, _ := json.Marshal([]any{op, spec, clock, local})
	return string(b)
}

// references fills the reference cache for all operations of the universe. Two
// fresh processes execute them in opposite orders; where they disagree the
// operation is executed alone in a process of its own. It returns the runs of
// both processes and the operations that disagreed.
func (v *vsim) references(u *universe, prof bool) (hist [2][]*plan.Run, differ []int, err error) {
	outs := make([][2]plan.Outcome, len(u.ops))
	u.prof = make([]profile, len(u.ops))
	for d := 0; d < 2; d++ {
		p, err := v.start(u.boot)
		if err != nil {
			return hist, nil, err
		}
		for k := range u.ops {
			if v.halted() {
				p.Close()
				return hist, nil, nil
			}
			i := k
			if d == 1 {
				i = len(u.ops) - 1 - k
			}
			op := u.ops[i]
			run := solo(op, u.spec(op), u.clock, u.local)
			run.ID = i
			run.Profile = prof && d == 0
			hist[d] = append(hist[d], run)
			res, err := p.Exec(run, runLimit)
			if err != nil {
				p.Close()
				if _, ok := err.(errCrash); ok {
					outs[i][d] = plan.Outcome{S: "crash|" + err.Error()}
					if p, err = v.start(u.boot); err != nil {
						return hist, nil, err
					}
					continue
				}
				return hist, nil, err
			}
			outs[i][d] = outcomeOf(res, 0, 0)
			if res.Failure != "" {
				if p, err = v.start(u.boot); err != nil {
					return hist, nil, err
				}
			}
			if d == 0 {
				u.prof[i] = profile{Sites: res.Sites, Counts: res.Counts, Steps: res.Steps, Reads: res.Reads}
			}
			v.st.refRuns.Add(1)
		}
		p.Close()
	}
	for i, op := range u.ops {
		key := refKey(op, u.spec(op), u.clock, u.local)
		if outs[i][0].S != outs[i][1].S {
			differ = append(differ, i)
			if _, err := v.ref(op, u.spec(op), u.clock, u.local); err != nil {
				return hist, nil, err
			}
			continue
		}
		v.putRef(key, outs[i][0])
	}
	return hist, differ, nil
}

func (u *universe) spec(op plan.Op) plan.ParserSpec {
	if op.Parser < 0 {
		return plan.ParserSpec{}
	}
	return u.specs[op.Parser]
}

// outcomeOf extracts the outcome of an operation; an operation that did not
// finish has an outcome of its own.
func outcomeOf(res *plan.RunResult, c, k int) plan.Outcome {
	o := res.Ops[c][k]
	if !o.Done {
		return plan.Outcome{S: "unfinished|" + res.Failure}
	}
	return o.Outcome
}

// ref returns what op returns when it is the only call in a fresh process.
func (v *vsim) ref(op plan.Op, spec plan.ParserSpec, clock time.Time, local string) (plan.Outcome, error) {
	key := refKey(op, spec, clock, local)
	if o, ok := v.getRef(key); ok {
		return o, nil
	}
	p, err := v.start(Boot{})
	if err != nil {
		return plan.Outcome{}, err
	}
	defer p.Close()
	res, err := p.Exec(solo(op, spec, clock, local), runLimit)
	if err != nil {
		if _, ok := err.(errCrash); ok {
			o := plan.Outcome{S: "crash|" + err.Error()}
			v.putRef(key, o)
			return o, nil
		}
		return plan.Outcome{}, err
	}
	v.st.refRuns.Add(1)
	o := outcomeOf(res, 0, 0)
	v.putRef(key, o)
	return o, nil
}

// ropts selects what a run looks like.
type ropts struct {
	minClients, maxClients int
	maxOps                 int
	shareCfg               int // percentage of operations taking a shared configuration
	sameParser             int // percentage chance that operations of one spec share a parser
	scribble, snapshot     bool
	spread                 bool // operations are not concentrated on a few
	reuse                  int  // percentage of runs whose callers keep one Configuration and one set of lists
	faults                 int  // percentage of operations with a failing callback
	stalls                 int  // percentage of operations with a stalling callback
	locals                 []string
	maxSteps               uint64 // operations that take more statements are left out
}

// mkRun builds a run from operations of the universe and draws its schedule.
func (u *universe) mkRun(r *rng, id int, o ropts) *plan.Run {
	run := &plan.Run{ID: id, Seed: r.next(), Clock: u.clock, Local: u.local, Budget: stepBudget, Scribble: o.scribble, Snapshot: o.snapshot}
	run.MapMode, run.MapSeed = r.n(3), r.next()
	run.Reuse = r.p(o.reuse, 100)
	n := r.in(o.minClients, o.maxClients)
	// concentrate on few operations so that the same code meets itself
	var all, menu []int
	for i := range u.ops {
		if o.maxSteps == 0 || u.prof[i].Steps <= o.maxSteps {
			all = append(all, i)
		}
	}
	if len(all) == 0 {
		all = append(all, 0)
	}
	if !o.spread && r.p(2, 3) {
		for i := r.in(1, 4); i > 0; i-- {
			menu = append(menu, pick(r, all))
		}
	}
	same := r.p(o.sameParser, 100)
	inst := map[int][]int{}
	sharedIx := map[int]int{}
	for c := 0; c < n; c++ {
		var ops []plan.Op
		for k := r.in(1, o.maxOps); k > 0; k-- {
			i := pick(r, all)
			if menu != nil && r.p(4, 5) {
				i = pick(r, menu)
			}
			op := u.ops[i]
			if op.Parser >= 0 {
				s := op.Parser
				op.Spec = s
				l := inst[s]
				if len(l) == 0 || (!same && len(l) < n && r.p(2, 3)) {
					run.Parsers = append(run.Parsers, u.specs[s])
					l = append(l, len(run.Parsers)-1)
					inst[s] = l
				}
				op.Parser = pick(r, l)
			}
			if op.Cfg != nil && r.p(o.shareCfg, 100) {
				if _, ok := sharedIx[i]; !ok {
					run.Shared = append(run.Shared, op.Cfg)
					sharedIx[i] = len(run.Shared)
				}
				op.Shared = sharedIx[i]
			}
			if r.p(o.faults, 100) {
				op = withFault(r, op, run.Parsers)
			}
			if r.p(o.stalls, 100) {
				op = withFault(r, op, run.Parsers)
				if op.Fault != nil {
					op.Fault.Kind, op.Fault.Arg = "stall", ""
				}
			}
			ops = append(ops, op)
		}
		run.Clients = append(run.Clients, ops)
	}
	if len(o.locals) > 0 {
		run.Local = pick(r, o.locals)
		if u.home != "" && r.p(2, 3) {
			run.Local = u.home
		}
	}
	if n > 1 {
		u.schedule(r, run)
	}
	return run
}

// schedule draws a scheduling strategy.
func (u *universe) schedule(r *rng, run *plan.Run) {
	sites := func(op plan.Op) *profile {
		if op.Ref == 0 {
			return nil
		}
		if p := &u.prof[op.Ref-1]; len(p.Sites) > 0 {
			return p
		}
		return nil
	}
	target := func() bool {
		c := r.n(len(run.Clients))
		p := sites(pick(r, run.Clients[c]))
		if p == nil {
			return false
		}
		s, cnt := u.pickSite(r, p)
		nth := uint32(1)
		if cnt > 1 && r.p(1, 2) {
			nth = 1 + uint32(r.n(min(int(cnt), 40)))
		}
		run.Targets = append(run.Targets, plan.Target{Task: c, Site: s, Nth: nth, To: -1})
		if r.p(1, 4) { // the same place in everybody
			for d := range run.Clients {
				if d != c {
					run.Targets = append(run.Targets, plan.Target{Task: d, Site: s, Nth: 1, To: -1})
				}
			}
		}
		return true
	}
	gaps := []uint64{3, 8, 20, 60, 200, 600, 2000, 6000, 20000, 60000}
	switch r.n(7) {
	case 6: // where locks, atomics, maps and pools of package sync are used
		run.HotSites, run.HotProb = []uint32{lockSite}, pick(r, []int{30, 80, 130, 200})
		if r.p(1, 2) {
			run.Gap = pick(r, gaps[3:])
		} else if r.p(1, 2) {
			target()
		}
		for i := r.n(4); i > 0; i-- {
			run.HotSites = append(run.HotSites, pick(r, sharedSites))
		}
	case 0, 1:
		for i := r.in(1, 4); i > 0; i-- {
			target()
		}
	case 2:
		run.Gap = pick(r, gaps)
	case 3:
		for i := r.in(1, 6); i > 0; i-- {
			if p := sites(pick(r, pick(r, run.Clients))); p != nil {
				s, _ := u.pickSite(r, p)
				run.HotSites = append(run.HotSites, s)
			} else {
				run.HotSites = append(run.HotSites, pick(r, sharedSites))
			}
		}
		run.HotProb = pick(r, []int{2, 8, 32, 100, 200, 256})
	case 4:
		target()
		run.Gap = pick(r, gaps[4:])
	default:
		run.Gap = pick(r, gaps[2:])
		if r.p(1, 2) {
			target()
		}
	}
	if run.Gap == 0 && len(run.Targets) == 0 && len(run.HotSites) == 0 {
		run.Gap = pick(r, gaps)
	}
}

var siteShared []bool

// writeSites are the places that change package-level state, and the
// statements that follow them.
var writeSites = map[uint32]bool{}

// sharedSites lists the places that touch shared state, lockSite stands for
// everything in package sync.
var sharedSites = []uint32{lockSite}

const lockSite = 5

// pickSite prefers places that touch shared state and places passed rarely.
func (u *universe) pickSite(r *rng, p *profile) (uint32, uint32) {
	if p.writes == nil {
		p.writes = []int{}
		for i, s := range p.Sites {
			if writeSites[s] {
				p.writes = append(p.writes, i)
			}
		}
	}
	if len(p.writes) > 0 && r.p(2, 5) {
		i := pick(r, p.writes)
		return p.Sites[i], p.Counts[i]
	}
	best := r.n(len(p.Sites))
	for try := 0; try < 6; try++ {
		i := r.n(len(p.Sites))
		s := p.Sites[i]
		sh := int(s) < len(siteShared) && siteShared[s]
		if sh && (try > 2 || p.Counts[i] < 200 || r.p(1, 4)) {
			return s, p.Counts[i]
		}
		best = i
	}
	return p.Sites[best], p.Counts[best]
}

// withFault makes a callback of the operation fail.
func withFault(r *rng, op plan.Op, specs []plan.ParserSpec) plan.Op {
	where := ""
	if op.Parser >= 0 && (op.Kind == "parse" || op.Kind == "search") && op.Parser < len(specs) && specs[op.Parser].HasDet &&
		(op.Cfg == nil || len(op.Cfg.Languages) == 0 && len(op.Cfg.Locales) == 0) {
		where = "detect"
	}
	if op.Kind == "parse" || op.Kind == "hijri" || op.Kind == "jalali" {
		if where == "" || r.p(1, 3) {
			where = "order"
			g := plan.Cfg{}
			if op.Cfg != nil {
				g = *op.Cfg
			}
			if g.Order == "" || g.Order == "@default" {
				g.Order = pick(r, []string{"DMY", "MDY", "YMD"})
			}
			op.Cfg = &g
			op.Shared = 0
		}
	}
	if where == "" {
		return op
	}
	f := &plan.Fault{Where: where, Nth: 1}
	if r.p(1, 4) {
		f.Nth = r.in(2, 4)
	}
	switch r.n(8) {
	case 0, 1, 2, 6:
		f.Kind = "panic"
	case 3:
		f.Kind = "goexit"
	case 4:
		f.Kind = "stall"
	case 5:
		f.Kind = "reenter"
		f.Arg = pick(r, []string{"helpers", "search", "parse"})
	default:
		f.Kind = "garbage"
		if where == "order" {
			f.Arg = pick(r, []string{"", "XYZ", "DMYD", "\xff\xfe\xfd", "DDM", "dmy"})
		} else {
			f.Arg = pick(r, []string{"@nil", "xx", "xx,en", "en,en,en", "EN", "\xff", "fr,\x00", ","})
		}
	}
	op.Fault = f
	op.Ref = 0
	return op
}

// refFn returns what an operation returns when it is the only call.
type refFn func(op plan.Op, spec plan.ParserSpec, clock time.Time, local string) (plan.Outcome, error)

// tableOracle compares every finished operation with its reference.
func (v *vsim) tableOracle(run *plan.Run, res *plan.RunResult, ref refFn) (*violation, error) {
	if x := failureViolation(res); x != nil {
		if res.Failure == "budget" {
			for c := range run.Clients {
				for k, op := range run.Clients[c] {
					if !res.Ops[c][k].Done {
						if o, err := ref(op, run.SpecOf(op), run.Clock, run.Local); err != nil || strings.HasPrefix(o.S, "unfinished|") {
							v.st.probe("calls that exceed the budget also when alone", 1)
							return nil, err
						}
					}
				}
			}
		}
		return x, nil
	}
	for c := range run.Clients {
		for k := range run.Clients[c] {
			op := run.Clients[c][k]
			o := res.Ops[c][k]
			if !o.Done {
				return &violation{"unfinished", fmt.Sprintf("client %d op %d %s never finished", c, k, opText(op))}, nil
			}
			v.count(op, o)
			if x := faultViolation(c, k, op, o); x != nil {
				return x, nil
			}
			if o.Mod != "" {
				return &violation{"modified", fmt.Sprintf("client %d op %d %s: the library modified %s", c, k, opText(op), o.Mod)}, nil
			}
			if op.Cfg != nil && op.Cfg.Prev {
				continue
			}
			if len(o.S) > 5 && o.S[:6] == "fatal|" {
				return &violation{"fatal", fmt.Sprintf("client %d op %d %s: %s", c, k, opText(op), o.S)}, nil
			}
			spec := plan.ParserSpec{}
			if op.Parser >= 0 && op.Parser < len(run.Parsers) {
				spec = run.Parsers[op.Parser]
			}
			want, err := ref(op, spec, run.Clock, run.Local)
			if err != nil {
				return nil, err
			}
			if want.S != o.S {
				return &violation{"result", fmt.Sprintf("client %d op %d %s\n    returned %s\n    alone in a fresh process it returns %s", c, k, opText(op), o.S, want.S)}, nil
			}
		}
	}
	if res.Mod != "" {
		return &violation{"modified", "the library modified caller data: " + res.Mod}, nil
	}
	return nil, nil
}

// faultViolation checks what an injected fault must look like to its caller.
func faultViolation(c, k int, op plan.Op, o plan.OpResult) *violation {
	if op.Fault == nil {
		return nil
	}
	want := ""
	switch op.Fault.Kind {
	case "panic":
		want = "panic|injected panic"
	case "goexit":
		want = "goexit"
	}
	if want != "" && o.Fire && o.S != want {
		return &violation{"swallowed", fmt.Sprintf("client %d op %d %s\n    the %s of the callback did not reach the caller, it got %s", c, k, opText(op), op.Fault.Kind, o.S)}
	}
	return nil
}

func failureViolation(res *plan.RunResult) *violation {
	switch res.Failure {
	case "":
		return nil
	}
	return &violation{res.Failure, res.Failure + ": " + res.Detail}
}

func opText(op plan.Op) string {
	op.Ref, op.Spec = 0, 0
	b, _ := json.Marshal(op)
	return string(b)
}
