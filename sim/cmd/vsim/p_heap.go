package main

import (
	"fmt"
	"strings"
	"time"

	"verif/sim/plan"
)

// C11: what stays alive after long histories.

const (
	heapOps   = 1200 // operations of a history
	heapEvery = 150  // between two measurements
	heapWarm  = 3    // measurements left out: everything used for the first time
)

// heapOp draws a call with a string that no other call has.
func (c *corpus) heapOp(r *rng, kind string, n int, langs [][]string) plan.Op {
	g := &plan.Cfg{Languages: pick(r, langs)}
	lang := pick(r, g.Languages)
	op := plan.Op{Kind: kind, Cfg: g}
	uniq := fmt.Sprintf("%d", 100000+n)
	switch kind {
	case "parse":
		op.Str = c.phrase(r, lang) + pick(r, []string{" ", "", " t", ", "})
		switch r.n(4) {
		case 0: // still a date, and a new one
			op.Str = fmt.Sprintf("%d %s %d %02d:%02d:%02d", r.in(1, 28), c.word(r, c.langs[lang], pick(r, months)), r.in(1700, 2300), r.n(24), r.n(60), r.n(60))
		case 1:
			op.Str = fmt.Sprintf("%s %s %s", c.word(r, c.langs[lang], "in"), uniq, c.word(r, c.langs[lang], "second"))
		case 2:
			op.Str += uniq
		case 3:
			op.Str += uniq[2:4] + ":" + uniq[4:]
		}
	case "prev": // always a date
		op.Kind = "parse"
		op.Str = fmt.Sprintf("%04d-%02d-%02d %02d:%02d", r.in(1900, 2100), r.in(1, 12), r.in(1, 28), r.n(24), r.n(60))
		g.Prev = true
		return op
	case "formats":
		op.Kind = "parse"
		op.Str = uniq + someClock(r).Format("2006-01-02 15:04")
		op.Formats = []string{uniq + "2006-01-02 15:04", "02/01/2006 " + uniq}
	case "fail":
		op.Kind = "parse"
		op.Str = "zz" + uniq + "qq " + c.phrase(r, lang) + " xx" + uniq
	case "search":
		op.Str = fmt.Sprintf("%s %s. %s %s", c.phrase(r, lang), uniq, c.phrase(r, lang), uniq)
	case "lists": // the languages are known, their lists are new
		op.Kind = "search"
		op.Str = c.phrase(r, lang) + " " + uniq
		g.Languages = nil
		for k := r.in(6, 14); k > 0; k-- {
			g.Languages = append(g.Languages, pick(r, pick(r, langs)))
		}
		if r.p(1, 2) {
			op.Kind = "parse"
		}
		g.Given = r.p(1, 2)
	case "own":
		op.Str = fmt.Sprintf("%d %s %d %02d:%02d:%02d", r.in(1, 28), c.word(r, c.langs[lang], pick(r, months)), r.in(1700, 2300), r.n(24), r.n(60), r.n(60))
		g.Prev = r.p(1, 2)
	case "names": // nothing is known under these names
		op.Kind = "parse"
		op.Str = c.phrase(r, lang)
		switch r.n(5) {
		case 0:
			g.Languages = []string{"x" + uniq}
		case 1:
			g.Locales = []string{lang + "-" + uniq}
		case 2:
			g.Region = uniq
		case 3:
			g.DefLangs = []string{"y" + uniq}
		default:
			g.Required = []string{"z" + uniq}
		}
		return op
	case "searchlang":
		op.Str = fmt.Sprintf("%s - %s %s", c.phrase(r, lang), uniq, c.phrase(r, lang))
		op.Lang = lang
	case "hijri":
		op.Str = fmt.Sprintf("%d/%02d/%d %s", r.in(1, 29), r.in(1, 12), r.in(1357, 1499), uniq[2:4]+":"+uniq[4:])
	case "jalali":
		op.Str = fmt.Sprintf("%d/%02d/%d %s", r.in(1, 29), r.in(1, 12), r.in(1330, 1440), uniq)
	case "poptz":
		op.Str = uniq + " " + pick(r, abbrs)
	case "panic":
		op.Kind = "parse"
		if r.p(1, 40) {
			op.Kind = "search"
		}
		g.Languages, g.Locales = nil, nil
		op.Parser = 1
		op.Str = c.phrase(r, lang) + " " + uniq
		op.Fault = &plan.Fault{Where: pick(r, []string{"detect", "order"}), Nth: r.in(1, 2), Kind: "panic", Arg: uniq}
		switch {
		case r.p(1, 4):
			op.Fault.Kind = "goexit"
		case r.p(1, 5):
			op.Fault.Kind = "garbage"
		}
		g.Order = "DMY"
	}
	if op.Kind == "parse" && op.Fault == nil {
		switch r.n(7) {
		case 0:
			g.Skip = []string{"w" + uniq}
		case 1:
			g.TZ = fmt.Sprintf("+%d", r.n(50000))
		case 2:
			g.Now = someClock(r).Format(time.RFC3339Nano)
		case 3:
			g.Order = uniq[3:]
		case 4:
			g.Prev = true
		case 5:
			g.DefLangs = []string{pick(r, g.Languages)}
		}
	}
	return op
}

var heapKinds = []string{"parse", "formats", "fail", "search", "searchlang", "hijri", "jalali", "poptz", "panic", "prev", "lists", "own", "names"}

func (v *vsim) heapRun(r *rng, id int) *plan.Run {
	pool := []string{"en", pick(r, popular), pick(r, popular), pick(r, v.corp.names)}
	langs := [][]string{{"en"}, pool[:2], {pool[2]}, {pool[3], pool[1]}, {pool[1], pool[2]}}
	run := &plan.Run{ID: id, Seed: r.next(), Clock: someClock(r), Heap: heapEvery, Note: "heap",
		Parsers: []plan.ParserSpec{{}, {HasDet: true, Detect: langs[1]}}, Clients: [][]plan.Op{nil}}
	// three kinds of call, so that each leaves a visible trace
	kinds := []string{heapKinds[id%len(heapKinds)], pick(r, heapKinds), pick(r, heapKinds)}
	if id/len(heapKinds)%2 == 0 {
		kinds[1] = kinds[0]
	}
	n := heapOps
	if x := strings.Join(kinds, " "); strings.Contains(x, "search") || strings.Contains(x, "lists") {
		n /= 2
		run.Heap /= 2
	}
	run.Note = "heap: " + strings.Join(kinds, ", ")
	for i := 0; i < n; i++ {
		kind := pick(r, kinds)
		if (strings.HasPrefix(kind, "search") || kind == "lists") && r.p(3, 4) {
			kind = "poptz" // searches are slow
		}
		op := v.corp.heapOp(r, kind, i, langs)
		if len(op.Str) > 150 {
			op.Str = strings.ToValidUTF8(op.Str[:150], "")
		}
		if op.Fault != nil {
			// those over all locales come early, too
			if i == 20 {
				op.Kind = "search"
			}
		} else if op.Kind != "own" {
			op.Parser = pick(r, []int{-1, 0, 0, 0})
		}
		run.Clients[0] = append(run.Clients[0], op)
	}
	return run
}

func heapOracle(v *vsim, run *plan.Run, res *plan.RunResult, ref refFn) (*violation, error) {
	if x := failureViolation(res); x != nil {
		return x, nil
	}
	h := res.Heap
	for _, c := range res.Ops {
		v.st.ops.Add(int64(len(c)))
	}
	if len(h) <= heapWarm+2 {
		return nil, nil
	}
	a, b := h[heapWarm-1], h[len(h)-1]
	ops := float64(b.Ops - a.Ops)
	bytes, objects := (float64(b.Bytes)-float64(a.Bytes))/ops, (float64(b.Objects)-float64(a.Objects))/ops
	v.st.probe("histories measured", 1)
	if debugHeap {
		fmt.Printf("%s: %.2f bytes %.3f objects per op, goroutines %d -> %d  %v\n", run.Note, bytes, objects, a.Goroutines, b.Goroutines, h)
	}
	if b.Goroutines > a.Goroutines+3 {
		return &violation{"goroutines", fmt.Sprintf("%d goroutines after %d calls, %d after %d calls (%s)", a.Goroutines, a.Ops, b.Goroutines, b.Ops, run.Note)}, nil
	}
	limit := 2000.0
	if strings.Contains(run.Note, "search") || strings.Contains(run.Note, "lists") || strings.Contains(run.Note, "panic") {
		limit = 4000 // the charsets are replaced by larger or smaller ones
	}
	if bytes*ops > limit || objects*ops > 60 {
		return &violation{"memory", fmt.Sprintf("live heap %d bytes, %d objects after %d calls, %d bytes, %d objects after %d calls: %.1f bytes and %.2f objects for each call (%s)",
			a.Bytes, a.Objects, a.Ops, b.Bytes, b.Objects, b.Ops, bytes, objects, run.Note)}, nil
	}
	return nil, nil
}

var debugHeap = envOr("VSIM_HEAP", "") != ""

func (v *vsim) heapJob(id int) (*suspect, error) {
	r := newRng(v.seed, "C11", id)
	s := v.session(Boot{}, 4)
	defer s.close()
	for k := 0; k < 3 && !v.halted(); k++ {
		run := v.heapRun(r, id*3+k)
		res, x, err := s.exec(run)
		if err != nil {
			return nil, err
		}
		if x == nil {
			if x, err = heapOracle(v, run, res, nil); err != nil {
				return nil, err
			}
		}
		if x != nil {
			return s.suspect(x), nil
		}
	}
	return nil, nil
}

func init() {
	props["C11"] = &prop{
		quick:  28,
		rule:   "a run is one caller with 600-1200 calls of up to three kinds (dates, formats, failures, searches, calendars, helpers, callbacks that panic), every one with a string and mostly a configuration never used before; the live heap is measured after garbage collections every 75-150 calls",
		job:    func(v *vsim, id int) (*suspect, error) { return v.heapJob(id) },
		oracle: caseOracle(heapOracle),
		assume: []string{"a leak of less than 2000 bytes (4000 with searches) and 60 objects over 300-750 calls is not seen"},
	}
}
