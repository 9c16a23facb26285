// The worker process: it links the instrumented library and executes runs.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"

	dateparser "github.com/markusmobius/go-dateparser"
	"github.com/markusmobius/go-dateparser/date"
	"github.com/markusmobius/go-dateparser/zzsim/plan"
	"github.com/markusmobius/go-dateparser/zzsim/rt"
)

const (
	slack     = "\x01slack"
	scribbled = "zz-scribble"
	siteCB    = 6
	maxTasks  = 4096
)

type injected struct{ what string }

func (i injected) String() string { return "injected " + i.what }

// opCtx is everything that belongs to one operation.
type opCtx struct {
	op       *plan.Op
	cfg      *dateparser.Configuration
	spec     *plan.Cfg
	formats  []string
	inv      map[string]int
	returned [][]string
	nested   string
	fired    bool
	shared   bool
	done     bool
	child    *opCtx
}

// cell is the Configuration and the lists of a caller that uses them again and
// again.
type cell struct {
	cfg   *dateparser.Configuration
	lists [6][]string
}

func (x *cell) put(i int, l []string) []string {
	if x.lists[i] == nil {
		x.lists[i] = make([]string, 16)
	}
	if l == nil || len(l)+3 > len(x.lists[i]) {
		return l
	}
	full := x.lists[i]
	for k := copy(full, l); k < len(full); k++ {
		full[k] = slack
	}
	return full[:len(l)]
}

// fill moves the operation's data into the cell.
func (x *cell) fill(c *opCtx) {
	c.formats = x.put(5, c.formats)
	if c.cfg == nil || c.shared {
		return
	}
	if x.cfg == nil {
		x.cfg = &dateparser.Configuration{}
	}
	*x.cfg = *c.cfg
	c.cfg = x.cfg
	for i, l := range []*[]string{&x.cfg.Locales, &x.cfg.Languages, &x.cfg.DefaultLanguages, &x.cfg.RequiredParts, &x.cfg.SkipTokens} {
		*l = x.put(i, *l)
	}
}

type parserState struct {
	p     *dateparser.Parser
	spec  plan.ParserSpec
	alias []string
	types []dateparser.ParserType
}

type runner struct {
	run     *plan.Run
	parsers []*parserState
	ctx     [][]*opCtx
	res     [][]plan.OpResult
	cur     [maxTasks]*opCtx
	heap    []plan.HeapPoint
	mod     string
	locals  map[string]*time.Location
}

var kept []*parserState

// emptyLists makes lists that are not given empty ones with spare capacity.
var emptyLists bool

func mk(l []string) []string {
	if l == nil && !emptyLists {
		return nil
	}
	s := make([]string, len(l)+3)
	copy(s, l)
	for i := len(l); i < len(s); i++ {
		s[i] = slack
	}
	return s[:len(l)]
}

func same(s, want []string) bool {
	if len(s) != len(want) || (s == nil) != (want == nil && !emptyLists) {
		return false
	}
	if s == nil {
		return true
	}
	full := s[:cap(s)]
	for i, x := range full {
		if i < len(want) && x != want[i] || i >= len(want) && i < len(want)+3 && x != slack {
			return false
		}
	}
	return true
}

func scribble(s []string) {
	full := s[:cap(s)]
	for i := range full {
		full[i] = scribbled
	}
}

func loc(name string) *time.Location {
	switch {
	case name == "" || name == "UTC":
		return time.UTC
	case name[0] == '+' || name[0] == '-':
		v, err := strconv.Atoi(name[1:])
		if err != nil {
			panic(err)
		}
		if name[0] == '-' {
			v = -v
		}
		return time.FixedZone(name, v)
	}
	l, err := time.LoadLocation(name)
	if err != nil {
		panic(err)
	}
	return l
}

func (r *runner) makeCfg(s *plan.Cfg, get func() *opCtx) *dateparser.Configuration {
	if s == nil {
		return nil
	}
	c := &dateparser.Configuration{
		Locales: mk(s.Locales), Languages: mk(s.Languages), Region: s.Region,
		TryPreviousLocales: s.Prev, UseGivenOrder: s.Given, DefaultLanguages: mk(s.DefLangs),
		PreferredDayOfMonth:  dateparser.PreferredDayOfMonth(s.PDOM),
		PreferredMonthOfYear: dateparser.PreferredMonthOfYear(s.PMOY),
		PreferredDateSource:  dateparser.PreferredDateSource(s.PDS),
		StrictParsing:        s.Strict, RequiredParts: mk(s.Required), SkipTokens: mk(s.Skip),
		ReturnTimeAsPeriod: s.TimePer, PreserveEndOfMonth: s.EOM,
	}
	c.CurrentTime = cfgNow(s)
	if s.TZ != "" {
		c.DefaultTimezone = loc(s.TZ)
	}
	switch s.Order {
	case "":
	case "@default":
		c.DateOrder = dateparser.DefaultDateOrder
	default:
		ord := s.Order
		c.DateOrder = func(string) string {
			rt.Y(siteCB)
			if o, ok := r.callback(get(), "order"); ok {
				return o
			}
			return ord
		}
	}
	return c
}

func cfgNow(s *plan.Cfg) time.Time {
	if s.Now == "" {
		return time.Time{}
	}
	t, err := time.Parse(time.RFC3339Nano, s.Now)
	if err != nil {
		panic(err)
	}
	return t.In(loc(s.NowTZ))
}

func cfgDiff(c *dateparser.Configuration, s *plan.Cfg) string {
	if c == nil {
		return ""
	}
	var d []string
	chk := func(name string, ok bool) {
		if !ok {
			d = append(d, name)
		}
	}
	chk("Locales", same(c.Locales, s.Locales))
	chk("Languages", same(c.Languages, s.Languages))
	chk("DefaultLanguages", same(c.DefaultLanguages, s.DefLangs))
	chk("RequiredParts", same(c.RequiredParts, s.Required))
	chk("SkipTokens", same(c.SkipTokens, s.Skip))
	now := cfgNow(s)
	chk("CurrentTime", c.CurrentTime.Equal(now) && c.CurrentTime.Location().String() == now.Location().String())
	chk("scalar fields", c.Region == s.Region && c.TryPreviousLocales == s.Prev && c.UseGivenOrder == s.Given &&
		uint8(c.PreferredDateSource) == s.PDS && uint8(c.PreferredDayOfMonth) == s.PDOM &&
		uint8(c.PreferredMonthOfYear) == s.PMOY && c.StrictParsing == s.Strict &&
		c.ReturnTimeAsPeriod == s.TimePer && c.PreserveEndOfMonth == s.EOM)
	chk("DefaultTimezone", (c.DefaultTimezone == nil) == (s.TZ == ""))
	chk("DateOrder", (c.DateOrder == nil) == (s.Order == ""))
	return strings.Join(d, ",")
}

// callback performs the fault of the running operation, if any is due.
func (r *runner) callback(c *opCtx, where string) (string, bool) {
	if c == nil {
		return "", false
	}
	c.inv[where]++
	f := c.op.Fault
	if f == nil || f.Where != where || c.inv[where] != f.Nth {
		return "", false
	}
	c.fired = true
	switch f.Kind {
	case "panic":
		panic(injected{"panic"})
	case "goexit":
		runtime.Goexit()
	case "stall":
		rt.Stall()
	case "sleep":
		d, _ := time.ParseDuration(f.Arg)
		rt.Sleep(d)
	case "garbage":
		return f.Arg, true
	case "reenter":
		for _, op := range reenterOps(f.Arg) {
			id := rt.Cur().ID
			save := r.cur[id]
			r.cur[id] = nil
			c.nested += "{" + r.call(&opCtx{op: op, inv: map[string]int{}, cfg: r.makeCfg(op.Cfg, func() *opCtx { return nil })}, true).S + "}"
			r.cur[id] = save
		}
	}
	return "", false
}

func reenterOps(arg string) []*plan.Op {
	en := &plan.Cfg{Languages: []string{"en"}, Now: "2019-03-04T05:06:07Z"}
	switch arg {
	case "helpers":
		return []*plan.Op{{Kind: "hijri", Str: "17-01-1437 08:30 PM", Cfg: en}, {Kind: "jalali", Str: "1394/08/05", Cfg: en},
			{Kind: "poptz", Str: "12 may 2015 10:00 EST"}, {Kind: "known", Str: "fr-CA"}, {Kind: "order", Str: "de"}}
	case "search":
		return []*plan.Op{{Kind: "search", Str: "We met on 3 May 2014 and again 2 days ago", Cfg: en}}
	default:
		return []*plan.Op{{Kind: "parse", Str: "3 weeks ago", Cfg: en}}
	}
}

func (r *runner) curCtx() *opCtx {
	t := rt.Cur()
	if t == nil {
		return nil
	}
	return r.cur[t.ID]
}

func (r *runner) newParser(s plan.ParserSpec) *parserState {
	ps := &parserState{p: &dateparser.Parser{}, spec: s}
	if s.Types != nil {
		ps.types = make([]dateparser.ParserType, len(s.Types), len(s.Types)+3)
		for i, t := range s.Types {
			ps.types[i] = dateparser.ParserType(t)
		}
		full := ps.types[:cap(ps.types)]
		for i := len(s.Types); i < len(full); i++ {
			full[i] = 99
		}
		ps.p.ParserTypes = ps.types
	}
	if s.HasDet {
		ps.alias = mk(s.Detect)
		ps.bind(r)
	}
	return ps
}

func (ps *parserState) bind(r *runner) {
	if !ps.spec.HasDet {
		return
	}
	ps.p.DetectLanguagesFunction = func(string) []string {
		rt.Y(siteCB)
		c := r.curCtx()
		if g, ok := r.callback(c, "detect"); ok {
			if g == "@nil" {
				return nil
			}
			return strings.Split(g, ",")
		}
		if ps.spec.Alias {
			return ps.alias
		}
		l := mk(ps.spec.Detect)
		if c != nil {
			c.returned = append(c.returned, l)
		}
		return l
	}
}

func (ps *parserState) diff() string {
	if len(ps.spec.Detect) > 0 && ps.alias != nil && !same(ps.alias, ps.spec.Detect) {
		return "list returned by DetectLanguagesFunction"
	}
	if ps.types != nil {
		full := ps.types[:cap(ps.types)]
		for i, t := range full {
			if i < len(ps.spec.Types) && int(t) != ps.spec.Types[i] || i >= len(ps.spec.Types) && i < len(ps.spec.Types)+3 && t != 99 {
				return "ParserTypes"
			}
		}
		if len(ps.p.ParserTypes) != len(ps.spec.Types) {
			return "ParserTypes length"
		}
	}
	return ""
}

func canon(d date.Date, err error) plan.Outcome {
	if err != nil {
		if !d.IsZero() || d.Locale != "" {
			return plan.Outcome{S: "err+date|" + err.Error() + "|" + canonDate(d, true), I: "err+date"}
		}
		return plan.Outcome{S: "err|" + err.Error(), I: "err|" + err.Error()}
	}
	return plan.Outcome{S: "ok|" + canonDate(d, true), I: "ok|" + canonDate(d, false), Loc: d.Locale, OK: true}
}

func canonDate(d date.Date, full bool) string {
	s := fmt.Sprintf("%s|%v|%d.%09d", d.Locale, d.Period, d.Time.Unix(), d.Time.Nanosecond())
	if full {
		n, o := d.Time.Zone()
		y, m, dd := d.Time.Date()
		s += fmt.Sprintf("|%d-%02d-%02d %s|%s|%d|%s", y, m, dd, d.Time.Format("15:04:05.999999999"), n, o, d.Time.Location())
	}
	return s
}

func canonSearch(lang string, l []dateparser.SearchResult, err error) plan.Outcome {
	if err != nil {
		s := fmt.Sprintf("err|%s|%s|%d", err.Error(), lang, len(l))
		return plan.Outcome{S: s, I: s, Loc: lang}
	}
	a, b := "ok|"+lang, "ok|"+lang
	for _, x := range l {
		a += fmt.Sprintf("[%q %s]", x.Text, canonDate(x.Date, true))
		b += fmt.Sprintf("[%q %s]", x.Text, canonDate(x.Date, !plan.IsStamp(x.Text)))
	}
	return plan.Outcome{S: a, I: b, Loc: lang, OK: true}
}

// call performs the API call and turns whatever happens into an outcome.
func (r *runner) call(c *opCtx, fresh bool) (out plan.Outcome) {
	op := c.op
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case injected:
				out = plan.Outcome{S: "panic|" + x.String()}
			case rt.Fatal:
				out = plan.Outcome{S: "fatal|" + x.Error()}
			default:
				out = plan.Outcome{S: fmt.Sprintf("panic|%v|%s", e, topFrame())}
			}
			out.I = out.S
		}
	}()
	var p *dateparser.Parser
	if fresh {
		p = &dateparser.Parser{}
	} else if op.Parser >= 0 {
		p = r.parsers[op.Parser].p
	}
	switch op.Kind {
	case "parse":
		if p == nil {
			return canon(dateparser.Parse(c.cfg, op.Str, c.formats...))
		}
		return canon(p.Parse(c.cfg, op.Str, c.formats...))
	case "own": // the caller configures a Parser of its own after having used it
		p = &dateparser.Parser{}
		out = canon(p.Parse(c.cfg, op.Str, c.formats...))
		if r.run.Scribble {
			for i := range p.ParserTypes {
				p.ParserTypes[i] = 99
			}
		}
		return
	case "search":
		var lang string
		var l []dateparser.SearchResult
		var err error
		if p == nil {
			lang, l, err = dateparser.Search(c.cfg, op.Str)
		} else {
			lang, l, err = p.Search(c.cfg, op.Str)
		}
		out = canonSearch(lang, l, err)
		r.scribbleResult(l)
		return
	case "searchlang":
		if p == nil {
			p = &dateparser.Parser{}
		}
		l, err := p.SearchWithLanguage(c.cfg, op.Lang, op.Str)
		out = canonSearch(op.Lang, l, err)
		r.scribbleResult(l)
		return
	case "hijri":
		return canon(dateparser.ParseHijri(c.cfg, op.Str))
	case "jalali":
		return canon(dateparser.ParseJalali(c.cfg, op.Str))
	case "poptz":
		s, n, o := dateparser.PopTzOffset(op.Str)
		x := fmt.Sprintf("%q|%s|%d", s, n, o)
		return plan.Outcome{S: x, I: x, OK: n != ""}
	case "known":
		x := fmt.Sprint(dateparser.IsKnownLocale(op.Str))
		return plan.Outcome{S: x, I: x, OK: x == "true"}
	case "order":
		x := dateparser.DefaultDateOrder(op.Str)
		return plan.Outcome{S: x, I: x, OK: true}
	}
	panic("bad op kind " + op.Kind)
}

func (r *runner) scribbleResult(l []dateparser.SearchResult) {
	if r.run.Scribble {
		l = l[:cap(l)]
		for i := range l {
			l[i] = dateparser.SearchResult{Text: scribbled, Date: date.Date{Locale: scribbled, Time: time.Unix(12345, 0)}}
		}
	}
}

func topFrame() string {
	pc := make([]uintptr, 64)
	n := runtime.Callers(2, pc)
	fr := runtime.CallersFrames(pc[:n])
	seenPanic := false
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "gopanic") || strings.Contains(f.Function, "panicIndex") || strings.Contains(f.Function, "goPanic") || strings.Contains(f.Function, "sigpanic") {
			seenPanic = true
		} else if seenPanic && strings.Contains(f.Function, "go-dateparser") && !strings.Contains(f.Function, "zzsim") {
			i := strings.LastIndex(f.Function, "/")
			return f.Function[i+1:]
		}
		if !more {
			return "?"
		}
	}
}

func (r *runner) runOp(c *opCtx, res *plan.OpResult) {
	id := rt.Cur().ID
	r.cur[id] = c
	tag := 1000 + id
	switch c.op.Kind {
	case "parse", "own", "search", "searchlang":
		tag = c.op.Parser + 1
	}
	t := rt.Cur()
	s0 := t.StepsNow()
	res.Start = rt.BeginOp(tag)
	out := plan.Outcome{S: "goexit", I: "goexit"}
	defer func() {
		res.Outcome = out
		res.End = rt.EndOp()
		res.Steps = t.StepsNow() - s0
		res.Inv = c.inv["detect"] + c.inv["order"]
		res.Fire = c.fired
		if c.nested != "" {
			res.S += "~" + c.nested
		}
		r.after(c, res)
		if r.run.Heap > 0 {
			// measured runs must not accumulate anything of their own
			res.Outcome = plan.Outcome{}
			c.returned, c.inv, c.child = nil, map[string]int{}, nil
			c.nested = ""
		}
		res.Done = true
		c.done = true
		r.cur[id] = nil
	}()
	out = r.call(c, false)
}

func (r *runner) after(c *opCtx, res *plan.OpResult) {
	if r.run.Snapshot {
		var d []string
		if c.cfg != nil {
			if x := cfgDiff(c.cfg, c.spec); x != "" {
				d = append(d, "Configuration "+x)
			}
		}
		if !same(c.formats, c.op.Formats) {
			d = append(d, "formats")
		}
		for _, l := range c.returned {
			if !same(l, r.detectSpec(c)) {
				d = append(d, "list returned by DetectLanguagesFunction")
				break
			}
		}
		res.Mod = strings.Join(d, "; ")
	}
	if r.run.Scribble {
		scribble(c.formats)
		for _, l := range c.returned {
			scribble(l)
		}
		if c.cfg != nil && !c.shared {
			g := c.cfg
			for _, l := range [][]string{g.Locales, g.Languages, g.DefaultLanguages, g.RequiredParts, g.SkipTokens} {
				scribble(l)
			}
			*g = dateparser.Configuration{Locales: []string{"ja"}, Region: "ZZ", StrictParsing: true,
				CurrentTime: time.Unix(77, 0), DateOrder: func(string) string { panic("retained DateOrder called") }}
		}
	}
}

func (r *runner) detectSpec(c *opCtx) []string {
	if c.op.Parser < 0 {
		return nil
	}
	return r.parsers[c.op.Parser].spec.Detect
}

func (r *runner) client(i int) func() {
	return func() {
		var x cell
		for k := range r.ctx[i] {
			c, res := r.ctx[i][k], &r.res[i][k]
			if r.run.Reuse {
				x.fill(c)
			}
			if f := c.op.Fault; f != nil && f.Kind == "goexit" {
				// The operation may end its goroutine: give it its own.
				var fl flag
				rt.Go(func() {
					defer fl.set()
					r.runOp(c, res)
				})
				fl.wait()
			} else {
				r.runOp(c, res)
			}
			if h := r.run.Heap; h > 0 && (k+1)%h == 0 && i == 0 {
				r.heap = append(r.heap, measure(k+1))
			}
			if r.run.Heap == 0 {
				r.ctx[i][k] = nil
			}
		}
	}
}

func measure(ops int) plan.HeapPoint {
	runtime.GC()
	runtime.GC()
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return plan.HeapPoint{Ops: ops, Bytes: m.HeapAlloc, Objects: m.HeapObjects, Goroutines: runtime.NumGoroutine()}
}

func prepare(run *plan.Run) *runner {
	r := &runner{run: run}
	emptyLists = run.Empty
	if run.Keep && kept != nil {
		r.parsers = kept
		for _, p := range kept {
			p.bind(r)
		}
	} else {
		for _, s := range run.Parsers {
			r.parsers = append(r.parsers, r.newParser(s))
		}
	}
	kept = r.parsers
	shared := make([]*dateparser.Configuration, len(run.Shared))
	for i, s := range run.Shared {
		shared[i] = r.makeCfg(s, r.curCtx)
	}
	for i, ops := range run.Clients {
		r.ctx = append(r.ctx, nil)
		r.res = append(r.res, make([]plan.OpResult, len(ops)))
		for k := range ops {
			op := &run.Clients[i][k]
			c := &opCtx{op: op, inv: map[string]int{}, formats: mk(op.Formats)}
			if op.Shared > 0 {
				c.cfg, c.spec, c.shared = shared[op.Shared-1], run.Shared[op.Shared-1], true
			} else {
				c.cfg, c.spec = r.makeCfg(op.Cfg, r.curCtx), op.Cfg
			}
			r.ctx[i] = append(r.ctx[i], c)
		}
	}
	return r
}

func (r *runner) execute() *plan.RunResult {
	run := r.run
	time.Local = loc(run.Local)
	spec := &rt.Spec{Seed: run.Seed, Gap: run.Gap, HotSites: run.HotSites, HotProb: run.HotProb, IsReplay: run.IsReplay,
		Clock: run.Clock, Tick: time.Duration(run.Tick), MapMode: run.MapMode, MapSeed: run.MapSeed, Budget: run.Budget, Reuse: run.Heap > 0}
	for _, t := range run.Targets {
		spec.Targets = append(spec.Targets, rt.Target{Task: t.Task, Site: t.Site, Nth: t.Nth, To: t.To})
	}
	for _, p := range run.Replay {
		spec.Replay = append(spec.Replay, rt.Point{Task: p.Task, Op: p.Op, Step: p.Step, To: p.To, Kind: p.Kind, Site: p.Site})
	}
	for _, e := range run.ClockEv {
		spec.ClockEv = append(spec.ClockEv, rt.ClockEvent{Task: e.Task, Read: e.Read, At: e.At})
	}
	var bodies []func()
	for i := range run.Clients {
		bodies = append(bodies, r.client(i))
	}
	rt.Profile(run.Profile)
	races := rt.RaceErrors()
	x := rt.Run(spec, bodies)
	out := &plan.RunResult{ID: run.ID, Ops: r.res, Failure: x.Failure, Detail: x.Detail, Overflow: x.Overflow, Steps: x.Steps,
		Switches: x.Switches, Preempts: x.Preempts, Hash: x.Hash, Reads: x.Reads, ReadsBy: x.ReadsBy, Jumps: x.Jumps,
		SimTime: int64(x.SimTime), MapIters: x.MapIters, Leaked: x.Leaked, Races: rt.RaceErrors() - races, Heap: r.heap}
	for _, p := range x.Trace {
		out.Trace = append(out.Trace, plan.Point{Task: p.Task, Op: p.Op, Step: p.Step, To: p.To, Kind: p.Kind, Site: p.Site})
	}
	if len(run.ClockEv) > 0 || run.Tick != 0 || len(x.Clock) > 1 {
		for _, c := range x.Clock {
			out.Clock = append(out.Clock, plan.ClockChange{Task: c.Task, Seq: c.Seq, At: c.At})
		}
	}
	if run.Profile {
		out.Sites, out.Counts = rt.ProfileCounts()
		rt.Profile(false)
	}
	if run.Snapshot {
		for i, p := range r.parsers {
			if d := p.diff(); d != "" {
				out.Mod = fmt.Sprintf("parser %d: %s", i, d)
			}
		}
	}
	return out
}

func main() {
	debug.SetGCPercent(300)
	if !rt.RaceBuild {
		lim := uint64(3 << 30)
		syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	in := json.NewDecoder(bufio.NewReaderSize(os.Stdin, 1<<20))
	w := bufio.NewWriterSize(os.Stdout, 1<<20)
	enc := json.NewEncoder(w)
	for {
		run := &plan.Run{}
		if err := in.Decode(run); err != nil {
			return
		}
		// unmarshalling leaves nothing shared with earlier runs
		res := prepare(run).execute()
		if err := enc.Encode(res); err != nil {
			return
		}
		w.Flush()
		if res.Failure != "" {
			return // parked goroutines are left behind
		}
	}
}
