package instr

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

// Toolchain environment: everything comes from the local caches.
func Env() []string {
	var env []string
	drop := map[string]bool{"GOFLAGS": true, "GOTOOLCHAIN": true, "GOPROXY": true, "GOWORK": true, "TZ": true, "GORACE": true,
		"GODEBUG": true, "GOGC": true, "GOMAXPROCS": true, "GOTELEMETRY": true, "PATH": true, "CGO_ENABLED": true, "GOARCH": true, "GOOS": true, "GOEXPERIMENT": true, "GOSUMDB": true}
	for _, e := range os.Environ() {
		if i := strings.IndexByte(e, '='); i > 0 && !drop[e[:i]] {
			env = append(env, e)
		}
	}
	home := os.Getenv("HOME")
	if home == "" {
		home = "/root"
		env = append(env, "HOME=/root")
	}
	path := os.Getenv("PATH")
	if _, err := os.Stat("/opt/veriftools/go1.24.13/bin/go"); err == nil {
		path = "/opt/veriftools/go1.24.13/bin:" + path
	}
	env = append(env, "PATH="+path, "GOTOOLCHAIN=local", "GOPROXY=off", "GOWORK=off", "GOTELEMETRY=off",
		"GOSUMDB=off", "CGO_ENABLED=1", "TZ=UTC", "GOFLAGS=-mod=mod")
	return env
}

// Built describes a built worker.
type Built struct {
	Bin    string
	Sites  []Site
	Report *Report
}

// Build instruments the module at repo and builds the worker. Everything is
// written below out; rt, simsync, plan and worker sources come from simDir.
func Build(repo, simDir, out string, race bool) (*Built, error) {
	if err := os.RemoveAll(out); err != nil {
		return nil, err
	}
	src := filepath.Join(out, "src")
	if err := os.MkdirAll(src, 0o755); err != nil {
		return nil, err
	}
	mod := filepath.Join(out, "go.mod")
	for _, p := range [][2]string{{"go.mod", mod}, {"go.sum", filepath.Join(out, "go.sum")}} {
		b, err := os.ReadFile(filepath.Join(repo, p[0]))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(p[1], b, 0o644); err != nil {
			return nil, err
		}
	}
	modPath := ""
	b, _ := os.ReadFile(mod)
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			modPath = f[1]
			break
		}
	}
	env := append(Env(), "GOFLAGS=-mod=mod -modfile="+mod)
	overlay, sites, rep, ext, err := Instrument(Config{
		Repo: repo, Env: env, Out: src, First: 16,
		RTPath: modPath + "/zzsim/rt", Sync: modPath + "/zzsim/simsync", Rand: modPath + "/zzsim/simrand",
		Skip: map[string]bool{"golang.org/x/text/unicode/norm": true, "golang.org/x/text/unicode/rangetable": true},
	})
	if err != nil {
		return nil, err
	}
	// Other modules cannot be overlaid: use copies of the packages needed.
	var reps []string
	done := map[string]bool{}
	for _, e := range ext {
		dst := filepath.Join(out, "ext", strings.ReplaceAll(e.Module, "/", "_"))
		if !done[e.Module] {
			done[e.Module] = true
			if err := copyDir(e.ModDir, dst, overlay); err != nil {
				return nil, err
			}
			if _, err := os.Stat(filepath.Join(dst, "go.mod")); err != nil {
				os.WriteFile(filepath.Join(dst, "go.mod"), []byte("module "+e.Module+"\n"), 0o644)
			}
			reps = append(reps, fmt.Sprintf("replace %s => %s", e.Module, dst))
		}
		if e.Dir != e.ModDir {
			rel, err := filepath.Rel(e.ModDir, e.Dir)
			if err != nil {
				return nil, err
			}
			if err := copyDir(e.Dir, filepath.Join(dst, rel), overlay); err != nil {
				return nil, err
			}
		}
	}
	b = append(b, []byte("\n"+strings.Join(reps, "\n")+"\n")...)
	if err := os.WriteFile(mod, b, 0o644); err != nil {
		return nil, err
	}
	for _, d := range []string{"rt", "simsync", "simrand", "simrand2", "plan", "worker"} {
		fs, err := filepath.Glob(filepath.Join(simDir, d, "*.go"))
		if err != nil || len(fs) == 0 {
			return nil, fmt.Errorf("no sources in %s/%s", simDir, d)
		}
		for _, f := range fs {
			overlay[filepath.Join(repo, "zzsim", d, filepath.Base(f))] = f
		}
	}
	if race {
		c := exec.Command("go", "env", "GOROOT")
		c.Env = env
		o, err := c.Output()
		if err != nil {
			return nil, err
		}
		goroot := strings.TrimSpace(string(o))
		p := filepath.Join(src, "std_pool.go")
		if err := os.WriteFile(p, []byte(poolStub), 0o644); err != nil {
			return nil, err
		}
		overlay[filepath.Join(goroot, "src/sync/pool.go")] = p
	}
	oj, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	ovl := filepath.Join(out, "overlay.json")
	if err := os.WriteFile(ovl, oj, 0o644); err != nil {
		return nil, err
	}
	bin := filepath.Join(out, "worker.bin")
	args := []string{"build", "-overlay", ovl, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, modPath+"/zzsim/worker")
	c := exec.Command("go", args...)
	c.Dir = repo
	c.Env = env
	var eb bytes.Buffer
	c.Stdout, c.Stderr = &eb, &eb
	if err := c.Run(); err != nil {
		return nil, fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, eb.String())
	}
	sj, _ := json.Marshal(sites)
	os.WriteFile(filepath.Join(out, "sites.json"), sj, 0o644)
	return &Built{bin, sites, rep}, nil
}

// copyDir copies the files of one directory, taking the instrumented version
// (and removing it from the overlay) where there is one.
func copyDir(src, dst string, overlay map[string]string) error {
	if err := os.MkdirAll(dst, 0o755); err != nil {
		return err
	}
	es, err := os.ReadDir(src)
	if err != nil {
		return err
	}
	for _, e := range es {
		if !e.Type().IsRegular() || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		from := filepath.Join(src, e.Name())
		if o, ok := overlay[from]; ok {
			delete(overlay, from)
			from = o
		}
		b, err := os.ReadFile(from)
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(dst, e.Name()), b, 0o644); err != nil {
			return err
		}
	}
	return nil
}

// poolStub replaces the standard library's sync.Pool in race builds: a pool
// that never returns what was put. The real one drops objects at random and
// its hand-overs would order accesses of the library that nothing else orders.
const poolStub = `package sync

type Pool struct {
	noCopy noCopy
	New    func() any
}

func (p *Pool) Put(x any) {}

func (p *Pool) Get() any {
	if p.New != nil {
		return p.New()
	}
	return nil
}
`
