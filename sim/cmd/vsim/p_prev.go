package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"verif/sim/plan"
)

// C04: histories of calls that prefer previously used locales, linearised
// against a sequential model. The model of a parser is the list of locales
// that succeeded on it, oldest first; what a locale does with a string is
// asked of the library itself, on a parser without history that may only use
// that locale.

type hop struct {
	op         plan.Op
	res        plan.OpResult
	c, k       int
	start, end uint64
}

// permitted: the configuration does not exclude the locale.
func (v *vsim) permitted(x string, g *plan.Cfg) bool {
	if g == nil || len(g.Locales) == 0 && len(g.Languages) == 0 && g.Region == "" {
		return true
	}
	reg := strings.TrimSpace(strings.ToUpper(g.Region))
	if reg != "" {
		reg = "-" + reg
	}
	in := func(l []string, suffix string) bool {
		for _, y := range l {
			if x == y+suffix {
				return true
			}
		}
		return false
	}
	if in(g.DefLangs, reg) {
		return true
	}
	if len(g.Locales) > 0 {
		return in(g.Locales, "")
	}
	if len(g.Languages) > 0 {
		return in(g.Languages, reg)
	}
	return in(v.corp.names, reg)
}

// prevStep returns what the operation must return in a state.
func (v *vsim) prevStep(state []string, op plan.Op, spec plan.ParserSpec, clock time.Time, ref refFn) (plan.Outcome, error) {
	g := plan.Cfg{}
	if op.Cfg != nil {
		g = *op.Cfg
	}
	g.Prev = false
	normal := op
	normal.Cfg = &g
	normal.Fault = nil
	if normal.Parser < 0 {
		normal.Parser = 0
	}
	for _, x := range state {
		if !v.permitted(x, &g) {
			continue
		}
		h := g
		h.Locales, h.Languages, h.Region, h.Given, h.DefLangs = []string{x}, nil, "", false, nil
		probe := normal
		probe.Cfg = &h
		o, err := ref(probe, spec, clock, "")
		if err != nil || o.OK {
			return o, err
		}
		// is the locale applicable? The date order callback is asked then.
		h2 := h
		h2.Order = "zzz"
		probe.Cfg = &h2
		if o, err = ref(probe, spec, clock, ""); err != nil {
			return o, err
		}
		if o.Inv > 0 {
			break
		}
	}
	return ref(normal, spec, clock, "")
}

func prevOracle(v *vsim, run *plan.Run, res *plan.RunResult, ref refFn) (*violation, error) {
	if x := failureViolation(res); x != nil {
		return x, nil
	}
	byParser := map[int][]hop{}
	for c := range run.Clients {
		for k, op := range run.Clients[c] {
			o := res.Ops[c][k]
			if !o.Done {
				return &violation{"unfinished", fmt.Sprintf("client %d op %d %s never finished", c, k, opText(op))}, nil
			}
			v.count(op, o)
			if x := faultViolation(c, k, op, o); x != nil {
				return x, nil
			}
			spec := plan.ParserSpec{}
			if op.Parser >= 0 && op.Parser < len(run.Parsers) {
				spec = run.Parsers[op.Parser]
			}
			if op.Kind == "parse" && op.Cfg != nil && op.Cfg.Prev {
				if op.Fault != nil && o.Fire && (op.Fault.Kind == "panic" || op.Fault.Kind == "goexit") {
					continue
				}
				byParser[op.Parser] = append(byParser[op.Parser], hop{op, o, c, k, o.Start, o.End})
				continue
			}
			if op.Fault != nil {
				continue
			}
			want, err := ref(op, spec, run.Clock, run.Local)
			if err != nil {
				return nil, err
			}
			if want.S != o.S && (op.Cfg == nil || !op.Cfg.Prev) {
				return &violation{"result", fmt.Sprintf("client %d op %d %s\n    returned %s\n    alone in a fresh process it returns %s", c, k, opText(op), o.S, want.S)}, nil
			}
		}
	}
	var ids []int
	for p := range byParser {
		ids = append(ids, p)
	}
	sort.Ints(ids)
	for _, p := range ids {
		spec := plan.ParserSpec{}
		if p >= 0 {
			spec = run.Parsers[p]
		}
		if x, err := v.linearise(p, byParser[p], spec, run.Clock, ref); x != nil || err != nil {
			return x, err
		}
	}
	return nil, nil
}

// linearise looks for a sequential order of the operations, consistent with
// real time, in which the model returns what the calls returned.
func (v *vsim) linearise(parser int, h []hop, spec plan.ParserSpec, clock time.Time, ref refFn) (*violation, error) {
	sort.Slice(h, func(i, j int) bool { return h[i].start < h[j].start })
	done := make([]byte, len(h))
	for i := range done {
		done[i] = '.'
	}
	seen := map[string]bool{}
	best := -1
	var bestMsg string
	var dfs func(state []string, n int) (bool, error)
	dfs = func(state []string, n int) (bool, error) {
		if n == len(h) {
			return true, nil
		}
		key := string(done) + strings.Join(state, ",")
		if seen[key] {
			return false, nil
		}
		seen[key] = true
		minEnd := ^uint64(0)
		for i := range h {
			if done[i] == '.' {
				minEnd = min(minEnd, h[i].end)
			}
		}
		for i := range h {
			if done[i] != '.' || h[i].start > minEnd {
				continue
			}
			want, err := v.prevStep(state, h[i].op, spec, clock, ref)
			if err != nil {
				return false, err
			}
			if want.S != h[i].res.S {
				if n > best {
					best = n
					bestMsg = fmt.Sprintf("client %d op %d %s\n    returned %s\n    with the locales [%s] used before it should return %s",
						h[i].c, h[i].k, opText(h[i].op), h[i].res.S, strings.Join(state, " "), want.S)
				}
				continue
			}
			next := state
			if want.OK && want.Loc != "" {
				has := false
				for _, x := range state {
					has = has || x == want.Loc
				}
				if !has {
					next = append(append([]string{}, state...), want.Loc)
					if len(next) > 1 {
						v.st.probe("histories with several used locales", 1)
					}
				}
			}
			done[i] = 'x'
			ok, err := dfs(next, n+1)
			done[i] = '.'
			if ok || err != nil {
				return ok, err
			}
		}
		return false, nil
	}
	ok, err := dfs(nil, 0)
	if err != nil || ok {
		return nil, err
	}
	return &violation{"previous locales", fmt.Sprintf("no sequential order of the %d calls on parser %d explains the results; the longest explanation covers %d calls, then %s", len(h), parser, best, bestMsg)}, nil
}

// prevUniverse is a pool of calls whose results depend on the locales used
// before.
func (c *corpus) prevUniverse(id int, r *rng, nFocus int) *universe {
	u := &universe{id: id, rng: r, clock: someClock(r), specs: []plan.ParserSpec{{}}}
	var focus []string
	for len(focus) < nFocus {
		l := pick(r, popular)
		if r.p(1, 5) {
			l = pick(r, c.names)
		}
		if r.p(1, 5) {
			l = "en"
		}
		dup := false
		for _, x := range focus {
			dup = dup || x == l
		}
		if !dup {
			focus = append(focus, l)
		}
	}
	if r.p(1, 2) {
		u.specs = append(u.specs, plan.ParserSpec{HasDet: true, Detect: []string{pick(r, focus), pick(r, focus), pick(r, focus)}, Alias: r.p(1, 2)})
	}
	if r.p(1, 4) {
		u.specs = append(u.specs, plan.ParserSpec{Types: pick(r, [][]int{{4}, {2, 4}, {5, 4}})})
	}
	amb := func() string {
		d, m, y := r.in(1, 12), r.in(1, 12), r.in(1, 31)
		switch r.n(7) {
		case 0:
			return fmt.Sprintf("%d/%d/%02d", d, m, y)
		case 1:
			return fmt.Sprintf("%d.%d.%d", d, m, 2000+y)
		case 2:
			return fmt.Sprintf("%02d-%02d-%02d", d, m, y)
		case 3:
			return fmt.Sprintf("%02d/%02d/%d %d:%02d", d, m, 2000+y, r.n(24), r.n(60))
		case 4:
			return fmt.Sprintf("%d %d", d, m)
		case 5:
			return fmt.Sprintf("%02d%02d%02d", d, m, y)
		default:
			return fmt.Sprintf("%d/%d", d, m)
		}
	}
	subset := func() []string {
		var l []string
		for _, x := range focus {
			if r.p(1, 2) && (nFocus <= 5 || r.p(1, 5)) {
				l = append(l, x)
			}
		}
		if len(l) == 0 {
			l = append(l, pick(r, focus))
		}
		for i := len(l) - 1; i > 0; i-- {
			j := r.n(i + 1)
			l[i], l[j] = l[j], l[i]
		}
		return l
	}
	noise := 0
	for i := 0; i < 44+8*(nFocus-5); i++ {
		g := plan.Cfg{Prev: true}
		op := plan.Op{Kind: "parse"}
		lang := pick(r, focus)
		if r.p(1, 2) {
			op.Str = amb()
		} else {
			op.Str = c.phrase(r, lang)
			if l := c.byLang[lang]; len(l) > 0 && r.p(1, 3) {
				op.Str = pick(r, l)
			}
		}
		if r.p(1, 14) {
			op.Str, _ = c.str(r)
		}
		if r.p(1, 20) {
			op.Str, op.Formats = formatted(r)
		}
		switch r.n(12) {
		case 0:
			if r.p(1, 2) {
				break // everything
			}
			fallthrough
		case 1:
			g.Languages = []string{lang}
		case 2:
			loc := c.locale(r, lang)
			g.Locales = []string{loc}
			if o := pick(r, focus); o != lang && r.p(1, 2) {
				g.Locales = append(g.Locales, c.locale(r, o))
			}
		case 3:
			g.Languages = subset()
			g.Region = pick(r, []string{"US", "GB", "CA", "BE", "001", "MX", "IN", "CH", "ca", " be "})
		case 4:
			g.Languages = subset()
			g.DefLangs = []string{pick(r, focus)}
		default:
			g.Languages = subset()
		}
		g.Given = r.p(1, 4)
		if r.p(1, 10) {
			g.DefLangs = []string{pick(r, focus)}
		}
		if r.p(1, 8) {
			g.Order = pick(r, []string{"DMY", "YMD", "MDY", "@default"})
		}
		if r.p(1, 8) {
			g.PDS = uint8(r.in(1, 2))
		}
		if r.p(1, 12) {
			g.Strict = true
		}
		if r.p(1, 6) {
			g.Skip = []string{"t", "foo"}
		}
		if len(u.specs) > 1 && r.p(1, 3) {
			op.Parser = r.n(len(u.specs))
			if u.specs[op.Parser].HasDet && r.p(3, 4) {
				g.Languages, g.Locales = nil, nil
			}
		}
		switch r.n(10) {
		case 0, 1: // the same call without the option
			g.Prev = false
			noise++
		case 2:
			op.Kind = "search"
			op.Str = op.Str + ". " + c.phrase(r, lang)
			if len(g.Languages) == 0 {
				g.Languages = []string{lang}
			}
		}
		op.Cfg = &g
		op.Ref = len(u.ops) + 1
		u.ops = append(u.ops, op)
	}
	return u
}

func init() {
	props["C04"] = &prop{
		quick: 48,
		rule:  "a run is a history of 1-4 callers on parsers of their own or shared, most calls asking to try previous locales, some failing or with callbacks that panic or end the goroutine; distinct: schedule hash and calls; the history of every parser linearised against the sequential model, other calls compared with the call alone",
		job: func(v *vsim, id int) (*suspect, error) {
			t := tjob{name: "C04", runs: 90, life: 180, judge: prevOracle,
				ro: ropts{minClients: 1, maxClients: 1, maxOps: 24, sameParser: 100, faults: 10, shareCfg: 10}}
			switch id % 4 {
			case 1: // concurrent
				t.ro.minClients, t.ro.maxClients, t.ro.maxOps = 2, 4, 5
			case 2:
				t.ro.minClients, t.ro.maxClients, t.ro.maxOps, t.ro.sameParser = 2, 3, 6, 50
			case 3:
				t.ro.sameParser = 40
			}
			nFocus := 5
			if id%8 == 4 { // many locales in one history
				nFocus, t.runs, t.ro.maxOps, t.ro.spread = 16, 30, 100, true
			}
			pkg := id%16 == 5
			if pkg {
				t.life, t.runs = 1, 25
				t.ro.maxClients, t.ro.maxOps = 3, 8
			}
			t.build = func(r *rng) *universe {
				u := v.corp.prevUniverse(id, r, nFocus)
				if pkg {
					for i := range u.ops {
						if r.p(2, 3) {
							u.ops[i].Parser = -1
						}
					}
				}
				return u
			}
			t.after = func(r *rng, u *universe, run *plan.Run) { plainFaults(run) }
			return v.table(id, t)
		},
		oracle: caseOracle(prevOracle),
		assume: []string{"whether a locale is applicable to a string is observed through the DateOrder callback, which the library asks for every applicable locale it tries"},
	}
}
