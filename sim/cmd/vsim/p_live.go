package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"

	"verif/sim/plan"
)

// C08: every call ends, after a bounded number of its own statements, without
// panicking, whatever the string, the configuration, the clock and the
// schedule; a stalled callback holds up nobody on another parser.

// ambiguous lists words with several meanings, by language.
func (c *corpus) ambiguous() map[string][]string {
	out := map[string][]string{}
	for _, l := range c.names {
		n := map[string]int{}
		var order []string
		li := c.langs[l]
		var means []string
		for m := range li.Words {
			means = append(means, m)
		}
		sort.Strings(means)
		for _, m := range means {
			seen := map[string]bool{}
			for _, w := range li.Words[m] {
				if seen[w] {
					continue
				}
				seen[w] = true
				if n[w]++; n[w] == 2 {
					order = append(order, w)
				}
			}
		}
		if len(order) > 0 {
			out[l] = order
		}
	}
	return out
}

func (c *corpus) anyWord(r *rng, lang string) string {
	li := c.langs[lang]
	if li == nil || len(li.Words) == 0 {
		return pick(r, months)
	}
	for try := 0; try < 8; try++ {
		m := pick(r, append(append(append([]string{}, months...), weekdays...), units...))
		if w := li.Words[m]; len(w) > 0 {
			return pick(r, w)
		}
	}
	if len(li.Rel) > 0 {
		return pick(r, li.Rel)
	}
	return pick(r, months)
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

// hostile makes a string nobody would write, and the language it is meant for.
func (c *corpus) hostile(r *rng) (string, string) {
	lang := pick(r, popular)
	if r.p(1, 3) {
		lang = pick(r, c.names)
	}
	if r.p(1, 4) {
		lang = pick(r, []string{"zh", "ja", "th", "ko", "yue", "zh-Hant", "my", "km", "lo"})
		if c.langs[lang] == nil {
			lang = "ja"
		}
	}
	seps := []string{" ", "", ",", ", ", ".", "-", "/", ":", "\n", "  ", " de ", "|", "، ", "\u200f", "\u00a0"}
	switch r.n(16) {
	case 0, 1: // ambiguous words
		if c.amb == nil {
			panic("ambiguous words not loaded")
		}
		l := pick(r, c.ambNames)
		n := r.in(1, 30)
		var b strings.Builder
		sep := pick(r, seps)
		one := pick(r, c.amb[l])
		for i := 0; i < n; i++ {
			w := one
			if r.p(1, 2) {
				w = pick(r, c.amb[l])
			}
			b.WriteString(w + sep)
		}
		return b.String(), l
	case 2, 3: // words glued together
		var b strings.Builder
		sep := pick(r, seps)
		for i := r.in(1, 25); i > 0; i-- {
			b.WriteString(c.anyWord(r, lang))
			if r.p(1, 3) {
				fmt.Fprintf(&b, "%d", r.n(3000))
			}
			b.WriteString(sep)
		}
		return strings.TrimSuffix(b.String(), sep), lang
	case 4: // random runes
		var b strings.Builder
		for i := r.in(0, 60); i > 0; i-- {
			switch r.n(6) {
			case 0:
				b.WriteRune(rune(r.n(0x250)))
			case 1:
				b.WriteRune(rune(r.n(0x3100)))
			case 2:
				b.WriteRune(rune(0x4e00 + r.n(0x5000)))
			case 3:
				b.WriteByte(byte(r.n(256)))
			case 4:
				b.WriteRune(rune(r.n(0x20000)))
			default:
				b.WriteString(pick(r, []string{"\u0660", "\u06f5", "\u0966", "\u200b", "\u0301", "\ufeff", "\x00", "İ", "ı", "ß", "ﬁ", "𝟘", "①", "Ⅷ"}))
			}
		}
		return b.String(), lang
	case 5: // digits
		var b strings.Builder
		for i := r.in(1, 120); i > 0; i-- {
			b.WriteByte(byte('0' + r.n(10)))
			if r.p(1, 12) {
				b.WriteString(pick(r, seps))
			}
		}
		return b.String(), lang
	case 6: // huge numbers
		u := c.word(r, c.langs[lang], pick(r, units))
		n := pick(r, []string{"9999999", "99999999999", "9223372036854775807", "9223372036854775808", "0.0000001", "1e9", "1,5", "-5", "00000000000000000012", "2147483648", "1.7.3", "292277026596", "99999999999999999999999"})
		return pick(r, []string{n + " " + u + " " + c.word(r, c.langs[lang], "ago"), c.word(r, c.langs[lang], "in") + " " + n + " " + u, n + u, n + " " + u + " " + n + " " + u, "in " + n + " decades"}), pick(r, []string{lang, "en"})
	case 7: // impossible dates
		return fmt.Sprintf("%d%s%d%s%d %d:%d:%d", r.n(100), pick(r, seps), r.n(100), pick(r, seps), r.n(20000), r.n(100), r.n(100), r.n(100)), lang
	case 8: // years at the edges
		return fmt.Sprintf("%s %d, %s", c.word(r, c.langs[lang], pick(r, months)), r.in(1, 31), pick(r, []string{"0", "0000", "0001", "9999", "10000", "99999", "-1", "1582", "1583", "000", "00"})), lang
	case 9: // timezones and braces
		s, l := c.str(r)
		for i := r.in(1, 6); i > 0; i-- {
			s += " " + pick(r, abbrs)
			if r.p(1, 3) {
				s += pick(r, []string{"+99:99", "+1", "-00:00", "UTC+", "UTC-25", "(", ")", "[[", "]]", "GMT+14:75", "éGMT", "ÆST"})
			}
		}
		return pick(r, []string{"", "[", "((", "{"}) + s, l
	case 10: // a known word at the end of a text without word spacing
		w := c.anyWord(r, lang)
		s, _ := c.str(r)
		return s + pick(r, seps) + w, lang
	case 11: // separators only
		return rep(pick(r, append(seps, "'", "\"", "”", "«", "t", "T", "Z", "am", "+", "\\", "%", "$", "(?")), r.in(0, 60)), lang
	case 12: // many dates
		var b strings.Builder
		for i := r.in(2, 12); i > 0; i-- {
			b.WriteString(c.phrase(r, lang) + pick(r, seps))
		}
		return b.String(), lang
	case 13: // corpus text damaged
		p := pick(r, c.Search)
		x := []byte(p[1])
		for i := r.in(1, 8); i > 0 && len(x) > 0; i-- {
			x[r.n(len(x))] = byte(r.n(256))
		}
		return string(x), p[0]
	case 14: // long
		s, l := c.str(r)
		return rep(s+pick(r, seps), r.in(2, 25)), l
	default:
		s, l := c.str(r)
		for i := r.in(1, 3); i > 0; i-- {
			s = c.mutate(r, s)
		}
		return s, l
	}
}

func extremeClock(r *rng) time.Time {
	y := pick(r, []int{1, 2, 621, 622, 900, 1356, 1581, 1582, 1600, 1857, 1899, 1900, 1937, 1938, 1970, 2000, 2037, 2038, 2076, 2077, 2078, 2100, 2400, 3177, 3178, 4000, 9376, 9377, 9998, 9999, r.in(1, 9999)})
	t := time.Date(y, time.Month(r.in(1, 12)), r.in(1, 31), r.n(24), r.n(60), r.n(60), r.n(1_000_000_000), time.UTC)
	if r.p(1, 3) {
		t = time.Date(y, 12, 31, 23, 59, 59, 999_999_999, time.UTC)
	}
	if r.p(1, 4) {
		t = time.Date(y, 2, 28, 23, 0, 0, 0, time.UTC).Add(time.Duration(r.n(48)) * time.Hour)
	}
	return t
}

func (c *corpus) hostileUniverse(id int, r *rng, n int) *universe {
	u := &universe{id: id, rng: r, clock: extremeClock(r), specs: []plan.ParserSpec{{}}}
	u.specs = append(u.specs, plan.ParserSpec{HasDet: true, Detect: []string{pick(r, popular), pick(r, c.names)}, Alias: r.p(1, 2)})
	u.specs = append(u.specs, plan.ParserSpec{Types: pick(r, [][]int{{4}, {2}, {0, 1}, {5, 4}, {5}, {3, 4}, {4, 4, 4}, {250}})})
	for i := 0; i < n; i++ {
		s, lang := c.hostile(r)
		if len(s) > 700 {
			s = s[:700]
		}
		op := plan.Op{Kind: "parse", Str: s}
		g := &plan.Cfg{Languages: c.langList(r, lang)}
		switch k := r.n(20); {
		case k < 3:
			op.Kind = "search"
		case k < 4:
			op.Kind, op.Lang = "searchlang", lang
			if lang == "" || r.p(1, 10) {
				op.Lang = pick(r, []string{"", "en", "xx", pick(r, c.names)})
			}
		case k < 10:
			op.Kind = "hijri"
			if r.p(3, 4) {
				op.Str = hijriStr(r, c)
			}
		case k < 12:
			op.Kind = "jalali"
			if r.p(3, 4) {
				op.Str = jalaliStr(r, c)
			}
		case k == 12:
			op.Kind = "poptz"
		case k == 13:
			op.Kind = pick(r, []string{"known", "order"})
		}
		if (op.Kind == "search" || op.Kind == "searchlang") && len(op.Str) > 22+i%4*4 {
			op.Str = op.Str[:22+i%4*4]
		}
		if f := strings.Fields(op.Str); (op.Kind == "search" || op.Kind == "searchlang") && len(f) > 7 {
			op.Str = strings.Join(f[:7], " ") // each word is tried in many combinations with all locales
		}
		if op.Kind == "parse" && r.p(1, 8) {
			op.Formats = pick(r, [][]string{{""}, {"%Y"}, {"2006"}, {"2006-01-02 15:04:05.999999999 -0700 MST"}, {"x"}, {"Jan"}, {"Monday"}, {"02", "2"}, {"\xff"}, {"__2 2006"}})
			if r.p(1, 2) {
				op.Str = someClock(r).Format(op.Formats[0])
			}
		}
		for n := r.n(4); n > 0; n-- {
			c.vary(r, g, lang)
		}
		if r.p(1, 10) && op.Kind != "searchlang" {
			g.Prev = true
		}
		if r.p(1, 8) {
			g.Now = extremeClock(r).Format(time.RFC3339Nano)
		}
		if r.p(1, 25) {
			g.Languages, g.Locales = nil, nil
			if len(op.Str) > 120 {
				op.Str = op.Str[:120]
			}
		}
		op.Cfg = g
		if op.Kind == "parse" || op.Kind == "search" {
			if r.p(1, 4) {
				op.Parser = r.n(len(u.specs))
				if op.Parser == 1 && r.p(2, 3) {
					g.Languages, g.Locales = nil, nil
				}
			}
			if r.p(1, 12) && g.Languages == nil {
				op.Cfg = nil
			}
		}
		op.Ref = len(u.ops) + 1
		u.ops = append(u.ops, op)
	}
	return u
}

// regional makes the calls of a universe ask for locales instead of languages.
func (c *corpus) regional(r *rng, u *universe) {
	for i := range u.ops {
		if g := u.ops[i].Cfg; g != nil && len(g.Languages) > 0 && r.p(2, 3) && u.ops[i].Shared == 0 {
			x := *g
			for _, l := range g.Languages {
				if c.langs[l] != nil {
					x.Locales = append(x.Locales[:len(x.Locales):len(x.Locales)], c.locale(r, l))
				}
			}
			if len(x.Locales) > 0 {
				x.Languages = nil
				u.ops[i].Cfg = &x
			}
		}
	}
}

// allowed is the number of statements a call may execute. The constants are
// some twenty times what the worst of many thousand hostile calls needed.
func allowed(op plan.Op, spec plan.ParserSpec) uint64 {
	nloc := 1
	g := plan.Cfg{}
	if op.Cfg != nil {
		g = *op.Cfg
	}
	switch {
	case len(g.Locales) > 0:
		nloc = len(g.Locales)
	case len(g.Languages) > 0:
		nloc = len(g.Languages)
	case spec.HasDet && op.Parser >= 0 && op.Fault == nil:
		nloc = len(spec.Detect)
	default:
		nloc = 205
	}
	nloc += len(g.DefLangs)
	if g.Prev {
		nloc += 3
	}
	n := uint64(len(op.Str)) + 40
	switch op.Kind {
	case "search", "searchlang":
		// every part of the text is tried with all locales
		return min(20_000_000*n, 3_000_000_000)
	case "hijri", "jalali", "poptz", "known", "order":
		return 2000 * n
	}
	return min(uint64(nloc)*n*200_000, 3_000_000_000)
}

func liveOracle(v *vsim, run *plan.Run, res *plan.RunResult, ref refFn) (*violation, error) {
	if x := failureViolation(res); x != nil {
		return x, nil
	}
	for c := range run.Clients {
		for k, op := range run.Clients[c] {
			o := res.Ops[c][k]
			if !o.Done {
				return &violation{"unfinished", fmt.Sprintf("client %d op %d %s never finished", c, k, opText(op))}, nil
			}
			v.count(op, o)
			if op.Fault == nil || !o.Fire {
				if strings.HasPrefix(o.S, "panic|") || strings.HasPrefix(o.S, "fatal|") || o.S == "goexit" {
					return &violation{"panic", fmt.Sprintf("client %d op %d %s at %s: %s", c, k, opText(op), run.Clock.Format(time.RFC3339Nano), o.S)}, nil
				}
			}
			spec := plan.ParserSpec{}
			if op.Parser >= 0 && op.Parser < len(run.Parsers) {
				spec = run.Parsers[op.Parser]
			}
			if a := allowed(op, spec); o.Steps > a && (op.Fault == nil || !o.Fire) {
				return &violation{"effort", fmt.Sprintf("client %d op %d %s at %s took %d statements, %d are allowed", c, k, opText(op), run.Clock.Format(time.RFC3339Nano), o.Steps, a)}, nil
			}
			if run.Note == "growth" && k > 0 {
				if p := res.Ops[c][k-1].Steps; o.Steps > 12*p+200_000 {
					return &violation{"growth", fmt.Sprintf("twice the length takes %.1f times the statements (%d after %d): client %d op %d %s", float64(o.Steps)/float64(p), o.Steps, p, c, k, opText(op))}, nil
				}
			}
			if os.Getenv("VSIM_EFFORT") != "" {
				fmt.Printf("EFFORT %s %d %d %.4f %s\n", op.Kind, o.Steps, allowed(op, spec), float64(allowed(op, spec))/float64(o.Steps), opText(op))
			}
		}
	}
	return nil, nil
}

// growth repeats a phrase 8, 16 and 32 times.
func (v *vsim) growthJob(id int) (*suspect, error) {
	r := newRng(v.seed, "C08 growth", id)
	s := v.session(Boot{}, 100)
	defer s.close()
	for k := 0; k < 60 && !v.halted(); k++ {
		lang := pick(r, v.corp.ambNames)
		var unit string
		sep := pick(r, []string{" ", ", ", ". ", " - ", "/", ""})
		switch r.n(4) {
		case 0, 1:
			for n := r.in(1, 2); n > 0; n-- {
				unit += pick(r, v.corp.amb[lang]) + sep
			}
		case 2:
			unit = v.corp.phrase(r, lang) + sep
		default:
			unit, lang = v.corp.str(r)
			unit += sep
			if lang == "" || v.corp.langs[lang] == nil {
				lang = "en"
			}
		}
		if len(unit) > 60 {
			continue
		}
		run := &plan.Run{ID: k, Seed: r.next(), Clock: someClock(r), Note: "growth", Parsers: []plan.ParserSpec{{}}, Clients: [][]plan.Op{nil}}
		for n := 8; n <= 32; n *= 2 {
			op := plan.Op{Kind: pick(r, []string{"parse", "parse", "parse", "hijri", "jalali"}), Str: rep(unit, n), Cfg: &plan.Cfg{Languages: []string{lang}}}
			if n > 8 {
				op.Kind = run.Clients[0][0].Kind
			}
			run.Clients[0] = append(run.Clients[0], op)
			run.Budget = max(run.Budget, allowed(op, plan.ParserSpec{}))
		}
		res, x, err := s.exec(run)
		if err != nil {
			return nil, err
		}
		if x == nil {
			if x, err = liveOracle(v, run, res, nil); err != nil {
				return nil, err
			}
		}
		if x != nil {
			return s.suspect(x), nil
		}
	}
	return nil, nil
}

func init() {
	props["C08"] = &prop{
		quick: 40,
		rule:  "a run is 1-4 callers with hostile strings, configurations and clocks (years 1 to 9999) and callbacks that stall; distinct: schedule hash and calls; every call must end within a number of statements bounded by its input, without a panic of its own, and never wait for a stalled call on another parser",
		job: func(v *vsim, id int) (*suspect, error) {
			if id%8 == 7 {
				return v.growthJob(id)
			}
			t := tjob{name: "C08", runs: 100, life: 200, judge: liveOracle, noRef: true,
				ro: ropts{minClients: 1, maxClients: 1, maxOps: 8, sameParser: 40}}
			t.build = func(r *rng) *universe { return v.corp.hostileUniverse(id, r, 120) }
			if id%3 == 2 {
				t.ro = ropts{minClients: 2, maxClients: 4, maxOps: 4, sameParser: 40, stalls: 35, faults: 6}
				t.runs, t.life = 80, 40
				t.build = func(r *rng) *universe {
					o := stdOpts
					o.bases, o.prev, o.helpers = 14, 15, 25
					u := v.corp.universe(id, r, o)
					moreDetect(r, u)
					if id%2 == 0 {
						v.corp.regional(r, u)
					}
					h := v.corp.hostileUniverse(id, r, 20)
					for _, op := range h.ops {
						if op.Parser > 0 {
							op.Parser = 0
						}
						if op.Kind == "search" || op.Kind == "searchlang" {
							if f := strings.Fields(op.Str); len(f) > 3 {
								op.Str = strings.Join(f[:3], " ")
							}
						}
						op.Ref = len(u.ops) + 1
						u.ops = append(u.ops, op)
					}
					return u
				}
			}
			t.after = func(r *rng, u *universe, run *plan.Run) {
				run.Budget = 0
				for _, c := range run.Clients {
					for _, op := range c {
						if op.Fault != nil && op.Fault.Kind == "reenter" {
							op.Fault.Kind = "stall" // what a callback does by itself is not bounded
						}
						spec := plan.ParserSpec{}
						if op.Parser >= 0 {
							spec = run.Parsers[op.Parser]
						}
						run.Budget = max(run.Budget, allowed(op, spec)+1000)
					}
				}
			}
			return v.table(id, t)
		},
		oracle: caseOracle(liveOracle),
		assume: []string{"the work of a call is counted in statements of the library; calls into the Go standard library count as one"},
	}
}
