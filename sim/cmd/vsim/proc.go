package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/sim/plan"
)

// Boot is everything that is fixed when a worker process starts.
type Boot struct {
	Race    bool   `json:"race,omitempty"`
	MapMode int    `json:"mapmode,omitempty"` // iteration order of maps during initialisation
	MapSeed uint64 `json:"mapseed,omitempty"`
	Clock   string `json:"clock,omitempty"` // clock during initialisation
}

// Proc is a running worker.
type Proc struct {
	boot   Boot
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	errb   *tail
	dir    string
	nRuns  int
	dead   bool
	raceRd int
}

type tail struct {
	mu sync.Mutex
	b  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append(t.b[:1<<14:1<<14], t.b[len(t.b)-1<<14:]...)
	}
	return len(p), nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.b)
}

// errCrash: the worker died while executing a run (fatal error, out of
// memory, stack overflow). errWatchdog: it did not answer in real time.
type errCrash struct{ msg string }

func (e errCrash) Error() string { return "worker crashed: " + e.msg }

var errWatchdog = errors.New("watchdog: no answer from worker")

var procCount, procStarts atomic.Int64

func (v *vsim) start(b Boot) (*Proc, error) {
	bin := v.plain
	if b.Race {
		bin = v.race
	}
	if bin == nil {
		return nil, fmt.Errorf("worker not built (race=%v)", b.Race)
	}
	p := &Proc{boot: b, cmd: exec.Command(bin.Bin), errb: &tail{}}
	p.dir = filepath.Join(v.tmp, fmt.Sprintf("p%d", procCount.Add(1)))
	if err := os.MkdirAll(p.dir, 0o755); err != nil {
		return nil, err
	}
	env := []string{"GOMAXPROCS=1", "TZ=UTC", "HOME=/root", "GOTRACEBACK=single", "PATH=/usr/bin:/bin",
		fmt.Sprintf("SIM_MAPMODE=%d", b.MapMode), fmt.Sprintf("SIM_MAPSEED=%d", b.MapSeed)}
	if b.Clock != "" {
		env = append(env, "SIM_CLOCK="+b.Clock)
	}
	if b.Race {
		env = append(env, "GORACE=log_path="+filepath.Join(p.dir, "race")+" exitcode=0 halt_on_error=0 history_size=2 atexit_sleep_ms=0")
	}
	p.cmd.Env = env
	p.cmd.Dir = p.dir
	p.cmd.Stderr = p.errb
	var err error
	if p.in, err = p.cmd.StdinPipe(); err != nil {
		return nil, err
	}
	o, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.out = bufio.NewReaderSize(o, 1<<20)
	if err := p.cmd.Start(); err != nil {
		return nil, err
	}
	procStarts.Add(1)
	return p, nil
}

// Exec performs one run.
func (p *Proc) Exec(r *plan.Run, limit time.Duration) (*plan.RunResult, error) {
	if p.dead {
		return nil, errors.New("worker is gone")
	}
	b, err := json.Marshal(r)
	if err != nil {
		return nil, err
	}
	type ans struct {
		line []byte
		err  error
	}
	ch := make(chan ans, 1)
	go func() {
		if _, err := p.in.Write(append(b, '\n')); err != nil {
			// the answer (or the crash) is read below
			_ = err
		}
		l, err := p.out.ReadBytes('\n')
		ch <- ans{l, err}
	}()
	t := time.NewTimer(limit)
	defer t.Stop()
	select {
	case a := <-ch:
		if a.err != nil {
			p.dead = true
			p.cmd.Wait()
			return nil, errCrash{firstLines(p.errb.String(), 12)}
		}
		res := &plan.RunResult{}
		if err := json.Unmarshal(a.line, res); err != nil {
			return nil, fmt.Errorf("bad answer: %v", err)
		}
		p.nRuns++
		if res.Failure != "" {
			p.Close()
		}
		return res, nil
	case <-t.C:
		p.dead = true
		p.cmd.Process.Kill()
		p.cmd.Wait()
		return nil, errWatchdog
	}
}

// Races returns the race reports written since the last call.
func (p *Proc) Races() []string {
	fs, _ := filepath.Glob(filepath.Join(p.dir, "race.*"))
	var all []byte
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		all = append(all, b...)
	}
	var out []string
	for _, s := range bytes.Split(all, []byte("==================\n")) {
		if bytes.Contains(s, []byte("WARNING: DATA RACE")) {
			out = append(out, string(s))
		}
	}
	if p.raceRd > len(out) {
		p.raceRd = 0
	}
	n := out[p.raceRd:]
	p.raceRd = len(out)
	return n
}

func (p *Proc) Close() {
	if p.dead {
		return
	}
	p.dead = true
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

func firstLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}
