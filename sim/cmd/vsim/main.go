// Command vsim builds the instrumented library from a working tree, simulates
// it and decides one property per invocation.
//
//	vsim check C01            explore; VERIF_SEED and VERIF_TIER select seed and depth
//	vsim replay FILE          execute a replay file again
//	vsim selftest             determinism of the simulator itself
//	vsim setup                build everything once
package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"

	"verif/sim/instr"
	"verif/sim/plan"
)

// prop is one property.
type prop struct {
	race  bool // needs the race flavour
	rule  string
	quick int // jobs of the quick tier
	wall  time.Duration
	// job explores the id-th part; it returns the first violation it meets.
	job    func(v *vsim, id int) (*suspect, error)
	oracle func(v *vsim) oracle
	assume []string
}

// suspect is a violation seen during exploration with all that led to it.
type suspect struct {
	boot  Boot
	hist  []*plan.Run
	alt   []*plan.Run // a second history to try
	x     *violation
	extra map[string]string
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim check ID | replay FILE | selftest | setup")
		os.Exit(2)
	}
	v := &vsim{root: envOr("VERIF_ROOT", "/verif"), repo: envOr("VERIF_REPO", "/repo"), procs: min(runtime.NumCPU(), 8),
		refs: map[string]plan.Outcome{}, start0: time.Now(), tier: envOr("VERIF_TIER", "quick"), seed: 1}
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		v.seed = s
	}
	v.st.hashes, v.st.faults, v.st.outcomes = map[uint64]struct{}{}, map[string]int64{}, map[string]int64{}
	v.st.extra, v.st.probes = map[string]any{}, map[string]int64{}
	code := v.main(os.Args[1], os.Args[2:])
	if v.tmp != "" {
		os.RemoveAll(v.tmp)
	}
	os.Exit(code)
}

func envOr(k, d string) string {
	if s := os.Getenv(k); s != "" {
		return s
	}
	return d
}

func (v *vsim) fatal(err error) int {
	fmt.Fprintln(os.Stderr, "ERROR:", err)
	fmt.Println("ERROR:", err)
	return 3
}

func (v *vsim) main(cmd string, args []string) int {
	var err error
	if v.tmp, err = os.MkdirTemp("", "vsim"); err != nil {
		return v.fatal(err)
	}
	if v.corp, err = loadCorpus(filepath.Join(v.root, "sim/data")); err != nil {
		return v.fatal(err)
	}
	if err := v.loadKnown(); err != nil {
		return v.fatal(err)
	}
	switch cmd {
	case "setup":
		if err := v.build(true); err != nil {
			return v.fatal(err)
		}
		return 0
	case "check":
		if len(args) != 1 || props[args[0]] == nil {
			return v.fatal(fmt.Errorf("unknown property %v", args))
		}
		v.prop = args[0]
		return v.check()
	case "replay":
		if len(args) < 1 {
			return v.fatal(fmt.Errorf("replay file missing"))
		}
		return v.replay(args[0])
	case "selftest":
		return v.selftest()
	}
	return v.fatal(fmt.Errorf("unknown command %s", cmd))
}

// build instruments and compiles the worker from the working tree.
func (v *vsim) build(race bool) error {
	var err error
	if v.plain, err = instr.Build(v.repo, filepath.Join(v.root, "sim"), filepath.Join(v.tmp, "plain"), false); err != nil {
		return err
	}
	siteShared = make([]bool, len(v.plain.Sites)+16)
	for i, s := range v.plain.Sites {
		siteShared[i+16] = s.Shared
		if s.Write {
			writeSites[uint32(i+16)] = true
		}
		if s.Shared {
			sharedSites = append(sharedSites, uint32(i+16))
		}
	}
	if race {
		if v.race, err = instr.Build(v.repo, filepath.Join(v.root, "sim"), filepath.Join(v.tmp, "race"), true); err != nil {
			return err
		}
	}
	return nil
}

func (v *vsim) check() int {
	p := props[v.prop]
	if err := v.build(p.race); err != nil {
		return v.fatal(err)
	}
	built := time.Since(v.start0)
	jobs, wall := p.quick, p.wall
	if wall == 0 {
		wall = 240 * time.Second
	}
	if v.tier == "thorough" {
		jobs, wall = 1<<30, 40*time.Minute
	}
	if s, err := strconv.Atoi(os.Getenv("VSIM_WALL")); err == nil {
		wall = time.Duration(s) * time.Second
	}
	if s, err := strconv.Atoi(os.Getenv("VSIM_JOB")); err == nil { // this job only
		v.next.Store(int64(s))
		jobs = s + 1
	}
	orc := p.oracle(v)
	var more int
	sus, done, err := v.explore(jobs, wall, func(id int) (*suspect, error) { return p.job(v, id) })
	v.st.extra["jobs_planned"] = jobs
	v.st.extra["build_seconds"] = built.Seconds()
	if err != nil {
		return v.fatal(err)
	}
	code := 0
	var f *found
	for tries := 0; sus != nil; tries++ {
		if f, err = v.confirm(sus.boot, sus.hist, sus.x, sus.extra, orc); err != nil {
			return v.fatal(err)
		}
		if f == nil && sus.alt != nil {
			if f, err = v.confirm(sus.boot, sus.alt, sus.x, sus.extra, orc); err != nil {
				return v.fatal(err)
			}
		}
		if f != nil || tries >= 3 {
			break
		}
		// not a violation when everything starts in a fresh process: go on
		v.st.probe("suspicion not confirmed in a fresh process", 1)
		v.stop.Store(false)
		rest := wall - time.Since(v.start0)
		if v.next.Load() >= int64(jobs) || rest <= 0 {
			break
		}
		if sus, more, err = v.explore(jobs, rest, func(id int) (*suspect, error) { return p.job(v, id) }); err != nil {
			return v.fatal(err)
		}
		done += more
	}
	v.st.extra["jobs_done"] = done
	if f != nil {
		limit := 60 * time.Second
		if s, err := strconv.Atoi(os.Getenv("VSIM_MIN")); err == nil {
			limit = time.Duration(s) * time.Second
		}
		f = v.minimise(f, orc, limit)
		code = 1
	}
	if err := v.evidence("exploration", p.rule, code, p.assume); err != nil {
		return v.fatal(err)
	}
	fmt.Printf("%s: %d jobs, %d runs, %d operations judged, %d reference runs, %d pre-emptions, %.1f s (build %.1f s)\n", v.prop, done,
		v.st.runs.Load(), v.st.ops.Load(), v.st.refRuns.Load(), v.st.preempts.Load(), time.Since(v.start0).Seconds(), built.Seconds())
	for _, k := range v.known {
		if k.Status == "open" && k.Property == v.prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", k.Property, k.What)
		}
	}
	if f != nil {
		path, err := v.write(f)
		if err != nil {
			return v.fatal(err)
		}
		fmt.Printf("%s: %s\n", f.v.Class, f.v.Msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", v.prop, path)
	}
	return code
}

// halted: a violation was met or the time is used up.
func (v *vsim) halted() bool { return v.stop.Load() || time.Now().After(v.end) }

// explore runs jobs on all cores until one finds a violation.
func (v *vsim) explore(jobs int, wall time.Duration, f func(id int) (*suspect, error)) (*suspect, int, error) {
	var done atomic.Int64
	var mu sync.Mutex
	var sus *suspect
	var ferr error
	best := 1 << 60
	end := time.Now().Add(wall)
	v.end = end
	var wg sync.WaitGroup
	for w := 0; w < v.procs; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !v.halted() {
				id := int(v.next.Add(1)) - 1
				if id >= jobs {
					return
				}
				s, err := f(id)
				if errors.Is(err, errWatchdog) { // too slow in real time: nothing is known about this run
					v.st.probe("job given up: a run took too long in real time", 1)
					err = nil
				}
				if s != nil && v.isKnown(s.x) {
					v.st.probe("known finding met again", 1)
					s = nil
				}
				done.Add(1)
				if s == nil && err == nil {
					continue
				}
				mu.Lock()
				if err != nil && ferr == nil {
					ferr = fmt.Errorf("job %d: %w", id, err)
				}
				if s != nil && id < best {
					best, sus = id, s
				}
				mu.Unlock()
				v.stop.Store(true)
			}
		}()
	}
	wg.Wait()
	if sus != nil {
		ferr = nil
	}
	return sus, int(done.Load()), ferr
}

// replay executes a replay file twice and reports what it shows.
func (v *vsim) replay(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		return v.fatal(err)
	}
	c := &Case{}
	if err := json.Unmarshal(b, c); err != nil {
		return v.fatal(err)
	}
	p := props[c.Property]
	if p == nil {
		return v.fatal(fmt.Errorf("unknown property %q", c.Property))
	}
	v.prop, v.seed = c.Property, c.Seed
	if err := v.build(c.Boot.Race); err != nil {
		return v.fatal(err)
	}
	var last *violation
	var hash uint64
	for i := 0; i < 2; i++ {
		x, res, err := v.evaluate(c.clone(), p.oracle(v))
		if err != nil {
			return v.fatal(err)
		}
		var h uint64
		for _, r := range res {
			h = h*31 + r.Hash
		}
		if i == 1 && (h != hash || (x == nil) != (last == nil)) {
			return v.fatal(fmt.Errorf("two executions of the replay file differ"))
		}
		hash, last = h, x
	}
	if last == nil {
		fmt.Printf("%s: no violation on this tree\n", c.Property)
		return 0
	}
	fmt.Printf("%s: %s\n", last.Class, last.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Property, file)
	return 1
}

// session is a worker process with the runs it has executed.
type session struct {
	v    *vsim
	boot Boot
	p    *Proc
	hist []*plan.Run
	max  int
}

func (v *vsim) session(b Boot, max int) *session { return &session{v: v, boot: b, max: max} }

func (s *session) close() {
	if s.p != nil {
		s.p.Close()
	}
	s.p = nil
}

// exec performs a run. A crash of the worker is a violation.
func (s *session) exec(run *plan.Run) (*plan.RunResult, *violation, error) {
	res, x, err := s.execRaw(run)
	if res != nil {
		s.v.tally(run, res)
	}
	return res, x, err
}

func (s *session) execRaw(run *plan.Run) (*plan.RunResult, *violation, error) {
	if s.p != nil && (s.p.dead || s.p.nRuns >= s.max) {
		s.close()
	}
	if s.p == nil {
		p, err := s.v.start(s.boot)
		if err != nil {
			return nil, nil, err
		}
		s.p = p
		s.hist = nil
	}
	s.hist = append(s.hist, run)
	res, err := s.p.Exec(run, runLimit)
	if err != nil {
		if e, ok := err.(errCrash); ok {
			return nil, &violation{"crash", e.Error()}, nil
		}
		return nil, nil, err
	}
	if res.Failure == "internal" {
		return nil, nil, fmt.Errorf("simulator: %s", res.Detail)
	}
	return res, nil, nil
}

func (s *session) suspect(x *violation) *suspect {
	return &suspect{boot: s.boot, hist: append([]*plan.Run(nil), s.hist...), x: x}
}

// tableCase judges the last run of a case by the reference table.
func tableCase(v *vsim) oracle {
	return func(c *Case, res []*plan.RunResult, races []string) (*violation, error) {
		return v.tableOracle(c.Runs[len(c.Runs)-1], res[len(res)-1], v.ref)
	}
}
