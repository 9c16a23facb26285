// Package plan defines what the orchestrator asks of a worker process and what
// comes back. A Run is a complete, explicit description of one simulated
// execution.
package plan

import (
	"time"
	"unicode"
)

// Cfg describes a dateparser.Configuration.
type Cfg struct {
	Locales   []string `json:"locales,omitempty"`
	Languages []string `json:"languages,omitempty"`
	Region    string   `json:"region,omitempty"`
	Prev      bool     `json:"prev,omitempty"`
	Given     bool     `json:"given,omitempty"`
	DefLangs  []string `json:"deflangs,omitempty"`
	Order     string   `json:"order,omitempty"` // "", "@default" or the string the callback returns
	Now       string   `json:"now,omitempty"`   // RFC 3339, "" leaves CurrentTime zero
	NowTZ     string   `json:"nowtz,omitempty"` // zone CurrentTime is expressed in
	TZ        string   `json:"tz,omitempty"`    // DefaultTimezone
	PDOM      uint8    `json:"pdom,omitempty"`
	PMOY      uint8    `json:"pmoy,omitempty"`
	PDS       uint8    `json:"pds,omitempty"`
	Strict    bool     `json:"strict,omitempty"`
	Required  []string `json:"required,omitempty"`
	Skip      []string `json:"skip,omitempty"`
	TimePer   bool     `json:"timeper,omitempty"`
	EOM       bool     `json:"eom,omitempty"`
}

// Fault is a misbehaviour of a user callback during one operation.
type Fault struct {
	Where string `json:"where"` // detect, order
	Nth   int    `json:"nth"`   // which invocation of the callback in this operation
	Kind  string `json:"kind"`  // panic, goexit, stall, garbage, reenter, sleep
	Arg   string `json:"arg,omitempty"`
}

// Op is one call of the public API.
type Op struct {
	Kind    string   `json:"kind"`             // parse, search, searchlang, hijri, jalali, poptz, known, order
	Parser  int      `json:"parser,omitempty"` // index into Run.Parsers, -1: package level functions
	Str     string   `json:"str"`
	Formats []string `json:"formats,omitempty"`
	Lang    string   `json:"lang,omitempty"`
	Cfg     *Cfg     `json:"cfg,omitempty"`    // nil: nil configuration
	Shared  int      `json:"shared,omitempty"` // 1+index into Run.Shared: pass that very pointer
	Fault   *Fault   `json:"fault,omitempty"`
	Spec    int      `json:"spec,omitempty"` // index of the parser's kind in the universe
	Ref     int      `json:"ref,omitempty"`  // 1+index of the op in the universe's table
	Means   *Means   `json:"means,omitempty"`
}

// Means is what the string of an operation denotes (for the calendar model).
type Means struct {
	Kind  string   `json:"kind"`            // rel, date, weekday, time
	Parts [][2]int `json:"parts,omitempty"` // rel: unit, tenths
	Sign  int      `json:"sign,omitempty"`  // rel: -1 ago, 1 in, 0 open
	Day   int      `json:"day,omitempty"`   // date: 0 missing
	Month int      `json:"month,omitempty"`
	Year  int      `json:"year,omitempty"`
	YY    bool     `json:"yy,omitempty"`   // two digits in the string
	WD    int      `json:"wd,omitempty"`   // weekday, Sunday 0
	Time  []int    `json:"time,omitempty"` // hour, minute, second
	TZ    *int     `json:"tz,omitempty"`   // offset in the string
}

// ParserSpec describes a Parser value.
type ParserSpec struct {
	Detect []string `json:"detect,omitempty"` // languages the detection callback returns
	HasDet bool     `json:"hasdet,omitempty"`
	Alias  bool     `json:"alias,omitempty"` // the callback returns the same slice every time
	Types  []int    `json:"types,omitempty"`
}

// Point, Target and ClockEvent mirror the runtime's types.
type Point struct {
	Task int    `json:"t"`
	Op   int    `json:"o,omitempty"`
	Step uint64 `json:"s"`
	To   int    `json:"to"`
	Kind int    `json:"k,omitempty"`
	Site uint32 `json:"site,omitempty"`
	At   string `json:"at,omitempty"`
}

type Target struct {
	Task int    `json:"task"`
	Site uint32 `json:"site"`
	Nth  uint32 `json:"nth"`
	To   int    `json:"to"`
}

type ClockEvent struct {
	Task int       `json:"task"`
	Read int       `json:"read"`
	At   time.Time `json:"at"`
}

// Run is one simulated execution.
type Run struct {
	ID       int          `json:"id"`
	Seed     uint64       `json:"seed"`
	Clock    time.Time    `json:"clock"`
	Local    string       `json:"local,omitempty"` // local zone of the host, default UTC
	MapMode  int          `json:"mapmode,omitempty"`
	MapSeed  uint64       `json:"mapseed,omitempty"`
	Parsers  []ParserSpec `json:"parsers,omitempty"`
	Shared   []*Cfg       `json:"shared,omitempty"`
	Clients  [][]Op       `json:"clients"`
	Gap      uint64       `json:"gap,omitempty"`
	Targets  []Target     `json:"targets,omitempty"`
	HotSites []uint32     `json:"hotsites,omitempty"`
	HotProb  int          `json:"hotprob,omitempty"`
	Tick     int64        `json:"tick,omitempty"`
	ClockEv  []ClockEvent `json:"clockev,omitempty"`
	Budget   uint64       `json:"budget,omitempty"`
	Replay   []Point      `json:"replay,omitempty"`
	IsReplay bool         `json:"isreplay,omitempty"`
	Scribble bool         `json:"scribble,omitempty"` // callers overwrite their data after each call
	Snapshot bool         `json:"snapshot,omitempty"` // deep-compare caller data around each call
	Profile  bool         `json:"profile,omitempty"`
	Heap     int          `json:"heap,omitempty"`  // measure the live heap after every Heap operations
	Reuse    bool         `json:"reuse,omitempty"` // every caller has one Configuration and one set of lists that it fills anew for each call
	Empty    bool         `json:"empty,omitempty"` // lists not given are empty lists with spare capacity instead of nil
	Note     string       `json:"note,omitempty"`  // for the oracle
	Keep     bool         `json:"keep,omitempty"`  // keep the parsers of the previous run of this process
}

// Outcome of an operation. S is everything the caller can observe; I leaves
// out zone and wall clock.
type Outcome struct {
	S    string `json:"s"`
	I    string `json:"i,omitempty"`
	Loc  string `json:"loc,omitempty"`  // locale or detected language
	OK   bool   `json:"ok,omitempty"`   // a result was returned
	Mod  string `json:"mod,omitempty"`  // caller data found modified
	Inv  int    `json:"inv,omitempty"`  // callback invocations
	Fire bool   `json:"fire,omitempty"` // the fault fired
}

// OpResult is an outcome with its place in the history.
type OpResult struct {
	Outcome
	Start uint64 `json:"a"`
	End   uint64 `json:"b"`
	Steps uint64 `json:"n,omitempty"`
	Done  bool   `json:"d,omitempty"`
}

// ClockChange is an entry of the clock log.
type ClockChange struct {
	Task int       `json:"t"`
	Seq  uint64    `json:"seq"`
	At   time.Time `json:"at"`
}

// HeapPoint is a live heap measurement.
type HeapPoint struct {
	Ops        int    `json:"ops"`
	Bytes      uint64 `json:"bytes"`
	Objects    uint64 `json:"objects"`
	Goroutines int    `json:"goroutines"`
}

// RunResult reports a run.
type RunResult struct {
	ID       int           `json:"id"`
	Ops      [][]OpResult  `json:"ops"`
	Failure  string        `json:"failure,omitempty"`
	Detail   string        `json:"detail,omitempty"`
	Trace    []Point       `json:"trace,omitempty"`
	Overflow bool          `json:"overflow,omitempty"`
	Steps    uint64        `json:"steps"`
	Switches int           `json:"switches"`
	Preempts int           `json:"preempts"`
	Hash     uint64        `json:"hash"`
	Clock    []ClockChange `json:"clock,omitempty"`
	Reads    int           `json:"reads"`
	ReadsBy  []int         `json:"readsby,omitempty"`
	Jumps    int           `json:"jumps,omitempty"`
	SimTime  int64         `json:"simtime,omitempty"`
	MapIters uint64        `json:"mapiters,omitempty"`
	Leaked   int           `json:"leaked,omitempty"`
	Races    int           `json:"races,omitempty"`
	Sites    []uint32      `json:"sites,omitempty"`
	Counts   []uint32      `json:"counts,omitempty"`
	Heap     []HeapPoint   `json:"heap,omitempty"`
	Mod      string        `json:"mod,omitempty"`
}

// SpecOf returns the description of the parser an operation uses.
func (r *Run) SpecOf(op Op) ParserSpec {
	if op.Parser >= 0 && op.Parser < len(r.Parsers) {
		return r.Parsers[op.Parser]
	}
	return ParserSpec{}
}

// IsStamp: the string can denote a Unix timestamp, whose instant is expressed
// in the host's zone.
func IsStamp(s string) bool {
	n := 0
	for _, c := range s {
		if unicode.IsDigit(c) {
			if n++; n >= 10 {
				return true
			}
		} else {
			n = 0
		}
	}
	return false
}
