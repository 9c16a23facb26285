// Package rt is the simulator's run-time: a cooperative scheduler for caller
// goroutines, a simulated clock and a controlled map iteration order. The
// instrumented library calls into it at every statement, lock, clock read and
// map loop.
//
// While a simulation is active exactly one task runs at a time. Every decision
// is a pure function of the run's Spec; nothing here reads a real clock, a
// real random source or depends on Go's scheduler. All functions that touch
// shared simulator state are marked norace, use no maps and do not grow
// slices, so that in race builds the simulator itself neither produces race
// reports nor creates happens-before edges between the simulated goroutines.
package rt

import (
	"fmt"
	"sync"
	"time"
	"unsafe"
)

const (
	maxTasks  = 4096
	maxTrace  = 1 << 13
	maxClock  = 1 << 13
	noStep    = ^uint64(0)
	nSitesCap = 1 << 17
)

// Point is one recorded scheduling decision: when task Task has executed Step
// yields of its Op-th operation, task To runs next. Kind 0 is a pre-emption,
// kind 1 the choice made when the task blocked or finished, kind 2 the first
// task to run.
type Point struct {
	Task int
	Op   int
	Step uint64
	To   int
	Kind int
	Site uint32
}

// Target asks for a pre-emption of Task at the Nth time it reaches Site.
// Task -1 means any task. To -1 means a random other task.
type Target struct {
	Task int    `json:"task"`
	Site uint32 `json:"site"`
	Nth  uint32 `json:"nth"`
	To   int    `json:"to"`
	hits uint32
	done bool
}

// ClockEvent sets the clock to At just before the Read-th clock read of Task.
type ClockEvent struct {
	Task int       `json:"task"`
	Read int       `json:"read"`
	At   time.Time `json:"at"`
	done bool
}

// Spec fully determines one run.
type Spec struct {
	Seed     uint64       // random choices of the scheduler
	Gap      uint64       // mean number of yields between random pre-emptions, 0: none
	Targets  []Target     // site targeted pre-emptions
	HotSites []uint32     // sites at which pre-emption happens with probability HotProb/256
	HotProb  int          //
	Replay   []Point      // if IsReplay: exactly these decisions and no others
	IsReplay bool         //
	Clock    time.Time    // initial clock
	ClockEv  []ClockEvent // clock faults
	Tick     time.Duration
	MapMode  int    // 0 sorted, 1 reverse, 2 shuffled
	MapSeed  uint64 //
	Budget   uint64 // yields allowed per operation
	Reuse    bool   // give the places of finished goroutines to new ones
}

// ClockChange is one entry of the clock log.
type ClockChange struct {
	Task int // whose reading made it
	Seq  uint64
	At   time.Time
}

// Result of a run.
type Result struct {
	Failure   string // "", "deadlock", "budget", "holdup", "internal"
	Detail    string
	Trace     []Point
	Overflow  bool
	Steps     uint64
	Switches  int
	Hash      uint64
	Clock     []ClockChange
	Reads     int
	Preempts  int
	ReadsBy   []int
	TaskSteps []uint64
	SimTime   time.Duration
	Jumps     int
	MapIters  uint64
	Leaked    int
}

const (
	stRunnable = iota
	stBlocked
	stStalled
	stSleeping
	stDone
)

// Task is one simulated goroutine.
type Task struct {
	ID      int
	state   int
	steps   uint64 // yields executed
	opBase  uint64 // value of steps when the current operation started
	quantum uint64 // value of steps when the task was last resumed
	next    uint64 // steps value at which slow must look
	nextPre uint64 // steps value of next random pre-emption
	on      unsafe.Pointer
	wakeAt  time.Time
	wake    chan struct{}
	reads   int
	mapN    uint64
	rndN    uint64
	rng     uint64
	opN     int
	Tag     int  // harness data: domain of the running operation
	child   bool // started by another task
	what    string
}

type sim struct {
	spec    *Spec
	tasks   [maxTasks]*Task
	n       int
	cur     *Task
	rng     uint64
	steps   uint64
	seq     uint64
	trace   []Point
	nTrace  int
	over    bool
	used    []bool // replay points consumed
	sw      int
	pre     int
	hash    uint64
	clock   []ClockChange
	nClock  int
	reads   int
	jumps   int
	jumped  time.Duration
	start   time.Time
	failed  chan struct{}
	failure string
	detail  string
	wg      sync.WaitGroup
	mapIt   uint64
	leaked  int
	chans   *chanState
	dead    bool
}

var (
	mode   int // 0 off, 1 simulating
	S      *sim
	now    = bootClock
	hot    [nSitesCap]uint8
	profOn bool
	prof   [nSitesCap]uint32
	offN   uint64 // map iteration counter outside simulations

	traceBuf [maxTrace]Point
	clockBuf [maxClock]ClockChange
)

// Reserved site numbers; instrumented sites start at FirstSite.
const (
	siteChan  = 1
	siteLock  = 5
	FirstSite = 16
)

// YLock is the yield point around lock operations.
//
//go:norace
func YLock() { Y(siteLock) }

// Fatal is what a fatal runtime error (unlock of unlocked mutex) becomes.
type Fatal struct{ Msg string }

func (f Fatal) Error() string { return "fatal error: " + f.Msg }

//go:norace
func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

//go:norace
func next(s *uint64) uint64 {
	*s += 0x9e3779b97f4a7c15
	x := *s
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9
	x = (x ^ (x >> 27)) * 0x94d049bb133111eb
	return x ^ (x >> 31)
}

// gap draws a geometric-like distance with the given mean.
//
//go:norace
func gap(s *uint64, mean uint64) uint64 {
	if mean == 0 {
		return noStep
	}
	// mixture: uniform in [1, 2*mean], occasionally much shorter
	r := next(s)
	if r&7 == 0 {
		return 1 + (r>>8)%(mean/8+1)
	}
	return 1 + (r>>8)%(2*mean)
}

// Y is the yield point inserted before every statement.
//
//go:norace
func Y(site uint32) {
	if mode == 0 {
		return
	}
	if profOn {
		prof[site]++
	}
	t := S.cur
	t.steps++
	if t.steps < t.next && hot[site] == 0 {
		return
	}
	S.slow(t, site)
}

// V is a yield between the evaluation of v and its store.
func V[T any](site uint32, v T) T {
	Y(site)
	return v
}

//go:norace
func (s *sim) recompute(t *Task) {
	n := t.quantum + maxQuantum
	if t.nextPre < n {
		n = t.nextPre
	}
	if b := t.opBase + s.spec.Budget + 1; b < n {
		n = b
	}
	if s.spec.IsReplay {
		for i := range s.spec.Replay {
			p := &s.spec.Replay[i]
			if p.Kind == 0 && p.Task == t.ID && p.Op == t.opN && !s.used[i] && p.Step+t.opBase >= t.steps && p.Step+t.opBase < n {
				n = p.Step + t.opBase
			}
		}
	}
	t.next = n
}

const maxQuantum = 20_000_000

//go:norace
func (s *sim) slow(t *Task, site uint32) {
	if s.dead {
		park()
	}
	if s.spec.Budget > 0 && t.steps-t.opBase > s.spec.Budget {
		s.fail("budget", fmt.Sprintf("task %d did not finish its operation within %d steps", t.ID, s.spec.Budget))
	}
	to := -2 // no switch
	if s.spec.IsReplay {
		for i := range s.spec.Replay {
			p := &s.spec.Replay[i]
			if p.Kind == 0 && p.Task == t.ID && p.Op == t.opN && p.Step == t.steps-t.opBase && !s.used[i] {
				s.used[i] = true
				to = p.To
				break
			}
		}
		if to >= 0 && (to >= s.n || s.tasks[to].state != stRunnable || to == t.ID) {
			to = -2
		}
	} else {
		if hot[site]&1 != 0 {
			for i := range s.spec.Targets {
				x := &s.spec.Targets[i]
				if x.Site == site && !x.done && (x.Task < 0 || x.Task == t.ID) {
					x.hits++
					if x.hits >= x.Nth {
						x.done = true
						to = x.To
						if to >= s.n || to == t.ID || (to >= 0 && s.tasks[to].state != stRunnable) {
							to = -1
						}
					}
				}
			}
		}
		if to == -2 && hot[site]&2 != 0 && int(next(&t.rng)>>20&255) < s.spec.HotProb {
			to = -1
		}
		if t.steps >= t.nextPre {
			t.nextPre = t.steps + gap(&t.rng, s.spec.Gap)
			if to == -2 {
				to = -1
			}
		}
		if to == -1 {
			to = s.randomOther(t)
		}
	}
	if to < 0 && t.steps >= t.quantum+maxQuantum {
		// fairness: nobody may run forever while others wait
		t.quantum = t.steps
		to = s.nextAfter(t)
	}
	if to >= 0 && to != t.ID {
		if s.nTrace >= maxTrace-512 && !s.spec.IsReplay {
			s.over = true
		} else {
			s.record(Point{Task: t.ID, Op: t.opN, Step: t.steps - t.opBase, To: to, Site: site})
			s.pre++
			s.switchTo(t, s.tasks[to], site)
		}
	}
	s.recompute(t)
}

//go:norace
func (s *sim) record(p Point) {
	if s.nTrace < len(s.trace) {
		s.trace[s.nTrace] = p
		s.nTrace++
	} else {
		s.over = true
	}
}

//go:norace
func (s *sim) randomOther(t *Task) int {
	n := 0
	for i := 0; i < s.n; i++ {
		if i != t.ID && s.tasks[i].state == stRunnable {
			n++
		}
	}
	if n == 0 {
		return -2
	}
	k := int(next(&s.rng) % uint64(n))
	for i := 0; i < s.n; i++ {
		if i != t.ID && s.tasks[i].state == stRunnable {
			if k == 0 {
				return i
			}
			k--
		}
	}
	return -2
}

//go:norace
func (s *sim) nextAfter(t *Task) int {
	for d := 1; d < s.n; d++ {
		i := (t.ID + d) % s.n
		if s.tasks[i].state == stRunnable {
			return i
		}
	}
	return -2
}

// switchTo hands the processor from me (which stays runnable or is blocked)
// to to, and returns when me is resumed.
//
//go:norace
func (s *sim) switchTo(me, to *Task, site uint32) {
	s.sw++
	s.hash = mix(s.hash ^ uint64(me.ID)<<32 ^ uint64(to.ID)<<40 ^ uint64(site)<<1 ^ me.steps<<8)
	s.cur = to
	raceDisable()
	to.wake <- struct{}{}
	<-me.wake
	raceEnable()
	if s.dead {
		park()
	}
	me.quantum = me.steps
}

// park stops a goroutine of an abandoned run for good.
//
//go:norace
func park() {
	raceDisable()
	select {}
}

//go:norace
func (s *sim) fail(kind, detail string) {
	if !s.dead {
		s.dead = true
		s.failure, s.detail = kind, detail
		mode = 0
		raceDisable()
		close(s.failed)
		raceEnable()
	}
	park()
}

// pick chooses who runs when me cannot go on (blocked or done). It returns nil
// when the run is over.
//
//go:norace
func (s *sim) pick(me *Task) *Task {
	for {
		n := 0
		for i := 0; i < s.n; i++ {
			if s.tasks[i].state == stRunnable {
				n++
			}
		}
		if n == 0 {
			if s.wakeSleeper() || s.releaseStalled() {
				continue
			}
			alive := 0
			for i := 0; i < s.n; i++ {
				if s.tasks[i].state != stDone {
					s.leaked++
					if !s.tasks[i].child {
						alive++
					}
				}
			}
			if alive == 0 {
				return nil
			}
			s.fail("deadlock", s.describe())
		}
		to := -1
		if s.spec.IsReplay {
			for i := range s.spec.Replay {
				p := &s.spec.Replay[i]
				if n == 1 {
					break // no choice: not recorded
				}
				if p.Kind == 1 && p.Task == me.ID && p.Op == me.opN && p.Step == me.steps-me.opBase && !s.used[i] {
					s.used[i] = true
					if p.To < s.n && s.tasks[p.To].state == stRunnable {
						to = p.To
					}
					break
				}
			}
			if to < 0 {
				for i := 0; i < s.n; i++ {
					if s.tasks[i].state == stRunnable {
						to = i
						break
					}
				}
			}
		} else {
			k := 0
			if n > 1 {
				k = int(next(&s.rng) % uint64(n))
			}
			for i := 0; i < s.n; i++ {
				if s.tasks[i].state == stRunnable {
					if k == 0 {
						to = i
						break
					}
					k--
				}
			}
		}
		if n > 1 {
			s.record(Point{Task: me.ID, Op: me.opN, Step: me.steps - me.opBase, To: to, Kind: 1})
		}
		return s.tasks[to]
	}
}

//go:norace
func (s *sim) describe() string {
	out := ""
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t.state == stBlocked {
			out += fmt.Sprintf("task %d blocked on %s; ", t.ID, t.what)
		}
	}
	return out
}

// wakeSleeper advances the simulated clock to the earliest sleeper.
//
//go:norace
func (s *sim) wakeSleeper() bool {
	var best *Task
	for i := 0; i < s.n; i++ {
		t := s.tasks[i]
		if t.state == stSleeping && (best == nil || t.wakeAt.Before(best.wakeAt)) {
			best = t
		}
	}
	if best == nil {
		return false
	}
	if best.wakeAt.After(now) {
		s.setClock(best.wakeAt)
	}
	best.state = stRunnable
	return true
}

// releaseStalled ends all stalls; it is called when nobody else can run. Any
// task blocked at that moment must belong to the domain of a stalled one.
//
//go:norace
func (s *sim) releaseStalled() bool {
	any := false
	for i := 0; i < s.n; i++ {
		if s.tasks[i].state == stStalled {
			any = true
		}
	}
	if !any {
		return false
	}
	for i := 0; i < s.n; i++ {
		b := s.tasks[i]
		if b.state != stBlocked {
			continue
		}
		same := b.Tag < 0
		for j := 0; j < s.n; j++ {
			if s.tasks[j].state == stStalled && s.tasks[j].Tag == b.Tag {
				same = true
			}
		}
		if !same {
			s.fail("holdup", fmt.Sprintf("task %d is blocked on %s although only callbacks of other parsers are stalled", b.ID, b.what))
		}
	}
	for i := 0; i < s.n; i++ {
		if s.tasks[i].state == stStalled {
			s.tasks[i].state = stRunnable
		}
	}
	return true
}

//go:norace
func (s *sim) blockAs(t *Task, state int, on unsafe.Pointer, what string) {
	t.state = state
	t.on = on
	t.what = what
	to := s.pick(t)
	if to == t {
		t.on = nil
		return
	}
	s.switchTo(t, to, 0)
	t.on = nil
	s.recompute(t)
}

// Block suspends the current task until Wake(on) is called.
//
//go:norace
func Block(on unsafe.Pointer, what string) {
	if mode != 1 {
		panic(Fatal{"all goroutines are asleep - deadlock! (" + what + ")"})
	}
	S.blockAs(S.cur, stBlocked, on, what)
}

// Wake makes every task blocked on the address runnable again.
//
//go:norace
func Wake(on unsafe.Pointer) {
	if mode != 1 {
		return
	}
	for i := 0; i < S.n; i++ {
		t := S.tasks[i]
		if t.state == stBlocked && t.on != nil && (t.on == on || t.on == unsafe.Pointer(&selAny)) {
			t.state = stRunnable
		}
	}
}

// Stall suspends the current task until no other task can make progress.
//
//go:norace
func Stall() {
	if mode != 1 {
		return
	}
	S.blockAs(S.cur, stStalled, nil, "stall")
}

// Active reports whether a simulation is running.
//
//go:norace
func Active() bool { return mode == 1 }

// Cur returns the running task.
//
//go:norace
func Cur() *Task {
	if mode != 1 {
		return nil
	}
	return S.cur
}

// BeginOp marks the start of an operation of the current task and returns the
// event sequence number.
//
//go:norace
func BeginOp(tag int) uint64 {
	t := S.cur
	t.Tag = tag
	t.opN++
	t.opBase = t.steps
	t.mapN, t.rndN = 0, 0
	S.recompute(t)
	S.seq++
	return S.seq
}

// EndOp marks the end of an operation.
//
//go:norace
func EndOp() uint64 {
	t := S.cur
	t.Tag = -1
	S.seq++
	return S.seq
}

//go:norace
func (s *sim) add() *Task {
	if s.spec.Reuse {
		for i := 0; i < s.n; i++ {
			if s.tasks[i].child && s.tasks[i].state == stDone {
				s.tasks[i] = &Task{ID: i, Tag: -1, wake: make(chan struct{}, 1), nextPre: noStep}
				s.recompute(s.tasks[i])
				return s.tasks[i]
			}
		}
	}
	if s.n >= maxTasks {
		s.fail("internal", "too many goroutines")
	}
	t := &Task{ID: s.n, Tag: -1, wake: make(chan struct{}, 1)}
	t.rng = mix(s.spec.Seed ^ uint64(t.ID+1)*0x51ed27)
	t.nextPre = noStep
	if s.spec.Gap > 0 && !s.spec.IsReplay {
		t.nextPre = gap(&t.rng, s.spec.Gap)
	}
	s.tasks[s.n] = t
	s.n++
	s.recompute(t)
	return t
}

// Go starts f as a new task; outside a simulation it starts a goroutine.
func Go(f func()) {
	if !Active() {
		go f()
		return
	}
	s := S
	t := s.add()
	inherit(t)
	go s.taskMain(t, f)
	Y(siteLock)
}

//go:norace
func inherit(t *Task) {
	t.Tag = S.cur.Tag
	t.child = true
}

func (s *sim) taskMain(t *Task, f func()) {
	waitFirst(t)
	defer s.finish(t)
	f()
}

//go:norace
func waitFirst(t *Task) {
	raceDisable()
	<-t.wake
	raceEnable()
	if S.dead {
		park()
	}
}

//go:norace
func (s *sim) finish(t *Task) {
	if s.dead {
		park()
	}
	t.state = stDone
	if !t.child {
		// real synchronisation: lets the driver see everything the task wrote
		s.wg.Done()
	}
	to := s.pick(t)
	if to == nil {
		mode = 0
		raceDisable()
		close(s.failed)
		raceEnable()
		return
	}
	s.hash = mix(s.hash ^ uint64(t.ID)<<32 ^ uint64(to.ID)<<40 ^ t.steps<<8 ^ 1)
	s.cur = to
	raceDisable()
	to.wake <- struct{}{}
	raceEnable()
}

// Run executes the bodies as concurrent tasks under spec and returns when all
// of them have finished or the run has failed. After a failure the goroutines
// of the run are left parked.
func Run(spec *Spec, bodies []func()) *Result {
	s := &sim{spec: spec}
	s.rng = mix(spec.Seed ^ 0xabcdef)
	s.trace = traceBuf[:]
	s.used = make([]bool, len(spec.Replay)+1)
	s.clock = clockBuf[:]
	s.failed = make(chan struct{})
	if spec.Budget == 0 {
		spec.Budget = 1 << 40
	}
	for _, x := range spec.Targets {
		hot[x.Site] |= 1
	}
	for _, x := range spec.HotSites {
		hot[x] |= 2
	}
	now = spec.Clock
	s.start = now
	s.clock[0] = ClockChange{-1, 0, now}
	s.nClock = 1
	S = s
	for _, b := range bodies {
		t := s.add()
		s.wg.Add(1)
		go s.taskMain(t, b)
	}
	first := 0
	if spec.IsReplay {
		for i, p := range spec.Replay {
			if p.Kind == 2 {
				first = p.To
				s.used[i] = true
			}
		}
		if first >= s.n {
			first = 0
		}
	} else {
		first = int(next(&s.rng) % uint64(s.n))
	}
	s.record(Point{Task: -1, To: first, Kind: 2})
	s.cur = s.tasks[first]
	startSim(s, first)
	if s.failure == "" {
		s.wg.Wait() // real happens-before edge from every task to the driver
	}
	for _, x := range spec.Targets {
		hot[x.Site] = 0
	}
	for _, x := range spec.HotSites {
		hot[x] = 0
	}
	return s.result()
}

//go:norace
func startSim(s *sim, first int) {
	mode = 1
	raceDisable()
	s.tasks[first].wake <- struct{}{}
	<-s.failed
	raceEnable()
	mode = 0
}

//go:norace
func (s *sim) result() *Result {
	r := &Result{Failure: s.failure, Detail: s.detail, Overflow: s.over, Switches: s.sw, Hash: s.hash, Reads: s.reads, Preempts: s.pre, Jumps: s.jumps, SimTime: s.jumped, MapIters: s.mapIt, Leaked: s.leaked}
	for i := 0; i < s.nTrace; i++ {
		r.Trace = append(r.Trace, s.trace[i])
	}
	for i := 0; i < s.nClock; i++ {
		r.Clock = append(r.Clock, s.clock[i])
	}
	for i := 0; i < s.n; i++ {
		r.Steps += s.tasks[i].steps
		r.ReadsBy = append(r.ReadsBy, s.tasks[i].reads)
		r.TaskSteps = append(r.TaskSteps, s.tasks[i].steps)
	}
	return r
}

// SetClock sets the clock used outside simulations.
//
//go:norace
func SetClock(t time.Time) { now = t }

//go:norace
func (s *sim) setClock(t time.Time) {
	d := t.Sub(now)
	if d < 0 {
		d = -d
	}
	s.jumped += d
	now = t
	s.seq++
	if s.nClock < len(s.clock) {
		id := -1
		if s.cur != nil {
			id = s.cur.ID
		}
		s.clock[s.nClock] = ClockChange{id, s.seq, t}
		s.nClock++
	} else {
		s.over = true
	}
}

// Now replaces time.Now.
//
//go:norace
func Now() time.Time {
	if mode == 1 {
		s, t := S, S.cur
		t.reads++
		s.reads++
		hit := false
		for i := range s.spec.ClockEv {
			e := &s.spec.ClockEv[i]
			if !e.done && e.Task == t.ID && e.Read == t.reads {
				e.done = true
				hit = true
				s.jumps++
				s.setClock(e.At)
			}
		}
		if !hit && s.spec.Tick > 0 {
			s.setClock(now.Add(s.spec.Tick))
		}
	}
	return now.Local()
}

// Since replaces time.Since.
func Since(t time.Time) time.Duration { return Now().Sub(t) }

// Until replaces time.Until.
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

// Sleep replaces time.Sleep: it costs simulated time only.
//
//go:norace
func Sleep(d time.Duration) {
	if mode != 1 || d <= 0 {
		return
	}
	t := S.cur
	t.wakeAt = now.Add(d)
	S.blockAs(t, stSleeping, nil, "sleep")
}

// After replaces time.After.
func After(d time.Duration) <-chan time.Time {
	c := make(chan time.Time, 1)
	Go(func() {
		Sleep(d)
		Send(c)(Now())
	})
	return c
}

// Tick replaces time.Tick; only the first tick is delivered.
func Tick(d time.Duration) <-chan time.Time { return After(d) }

// Profile turns the counting of site visits on (clearing the counts) or off.
func Profile(on bool) {
	if on {
		clear(prof[:])
	}
	profOn = on
}

// ProfileCounts returns the sites passed since Profile(true) with their counts.
func ProfileCounts() (sites []uint32, counts []uint32) {
	for i, c := range prof {
		if c > 0 {
			sites = append(sites, uint32(i))
			counts = append(counts, c)
		}
	}
	return
}

// StepsNow is the number of yields the task has executed.
//
//go:norace
func (t *Task) StepsNow() uint64 { return t.steps }

// Random replaces the sources of randomness.
//
//go:norace
func Random() uint64 {
	if mode == 1 {
		t := S.cur
		t.rndN++
		return mix(S.spec.MapSeed ^ t.rndN<<8 ^ uint64(t.ID)<<50 ^ 0x5bd1e995)
	}
	offN++
	return mix(bootMapSeed ^ offN<<8 ^ 0x5bd1e995)
}
