// Package core holds what every check needs: where things are, how to run
// commands, how to build gowrap from the working tree, verdicts and evidence.
package core

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Where things are.
var (
	Repo  = envOr("VERIF_REPO", "/repo")
	Verif = envOr("VERIF_HOME", "/verif")
	// GoRoot builds and runs gowrap, DecGoRoot builds and runs generated decorators
	GoRoot    = "/opt/veriftools/go1.24.13"
	DecGoRoot = "/opt/veriftools/go1.25.14"
)

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Ctx is one run of one check.
type Ctx struct {
	Prop    string
	Tier    string
	Seed    int64
	Scratch string
	Start   time.Time

	mu         sync.Mutex
	violations []string
	findings   map[string]bool
	cov        map[string]any
	counters   map[string]int
	samples    []any
	distinct   map[string]bool
	evals      int
	Rule       string
	Level      string
	Assume     []string
	known      []Known
	gowrapBin  string
}

// Known is one line of known_findings.jsonl.
type Known struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
	Status   string `json:"status"`
}

// Inconclusive ends the run as neither held nor violated.
type Inconclusive struct{ Msg string }

func (i Inconclusive) Error() string { return i.Msg }

// Fail makes the run inconclusive.
func Fail(format string, a ...any) { panic(Inconclusive{fmt.Sprintf(format, a...)}) }

// Must makes the run inconclusive on an error of the machinery.
func Must(err error, what string) {
	if err != nil {
		Fail("%s: %v", what, err)
	}
}

// NewCtx prepares a run.
func NewCtx(prop, tier string, seed int64) *Ctx {
	base := os.Getenv("TMPDIR")
	if base == "" {
		base = "/tmp"
	}
	d, err := os.MkdirTemp(base, "verif-"+prop+"-")
	Must(err, "scratch directory")
	d, err = filepath.EvalSymlinks(d)
	Must(err, "scratch directory")
	c := &Ctx{Prop: prop, Tier: tier, Seed: seed, Scratch: d, Start: time.Now(),
		findings: map[string]bool{}, cov: map[string]any{}, counters: map[string]int{}, distinct: map[string]bool{}, Level: "exploration"}
	if b, err := os.ReadFile(filepath.Join(Verif, "known_findings.jsonl")); err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if strings.TrimSpace(l) == "" {
				continue
			}
			var k Known
			Must(json.Unmarshal([]byte(l), &k), "known_findings.jsonl")
			c.known = append(c.known, k)
		}
	}
	return c
}

// Thorough reports whether the deep tier runs.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Dir makes a fresh directory in the scratch area.
func (c *Ctx) Dir(name string) string {
	d := filepath.Join(c.Scratch, name)
	Must(os.MkdirAll(d, 0o755), "mkdir")
	return d
}

// Eval counts one evaluated case; key identifies it for distinctness ("" when trivial).
func (c *Ctx) Eval(key string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals++
	if key != "" {
		h := sha256.Sum256([]byte(key))
		c.distinct[hex.EncodeToString(h[:8])] = true
	}
}

// EvalN counts cases evaluated by another process, n of them, d distinct.
func (c *Ctx) EvalN(n int, label string, d int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.evals += n
	for i := 0; i < d; i++ {
		c.distinct[fmt.Sprintf("%s#%d", label, i)] = true
	}
}

// Count adds to a named counter of the evidence.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.counters[name] += n
}

// Counter reads a counter.
func (c *Ctx) Counter(name string) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.counters[name]
}

// Need makes the run inconclusive when fewer than min events of a kind were seen.
func (c *Ctx) Need(name string, min int) {
	if n := c.Counter(name); n < min {
		Fail("only %d %q observed, at least %d needed: nothing can be concluded", n, name, min)
	}
}

// Sample keeps a case for the evidence file.
func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.samples) < 6 {
		b, err := json.Marshal(v)
		if err == nil && len(b) > 3000 {
			v = string(b[:3000]) + "..."
		}
		c.samples = append(c.samples, v)
	}
}

// Violation reports a violation once, with its replay material.
func (c *Ctx) Violation(id, what string, files map[string]string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.violations) >= 5 {
		c.violations = append(c.violations, id)
		if len(c.violations) < 100 {
			fmt.Printf("  and: %s\n", id)
		}
		return
	}
	h := sha256.Sum256([]byte(id + what))
	dir := filepath.Join(Verif, "replays", c.Prop+"-"+hex.EncodeToString(h[:5]))
	_ = os.RemoveAll(dir)
	_ = os.MkdirAll(dir, 0o755)
	_ = os.WriteFile(filepath.Join(dir, "WHAT.txt"), []byte(fmt.Sprintf("property %s\ncase %s\nseed %d tier %s\n\n%s\n", c.Prop, id, c.Seed, c.Tier, what)), 0o644)
	for n, b := range files {
		p := filepath.Join(dir, n)
		_ = os.MkdirAll(filepath.Dir(p), 0o755)
		_ = os.WriteFile(p, []byte(b), 0o644)
	}
	c.violations = append(c.violations, id)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, dir)
	fmt.Printf("  case: %s\n  %s\n", id, indent(clip(what, 2500)))
}

// Finding reports the failure of a case which known_findings.jsonl may list.
// A listed failure is printed as KNOWN-FINDING, any other one is a violation.
func (c *Ctx) Finding(id, what string, files map[string]string) {
	for _, k := range c.known {
		if k.Property == c.Prop && k.ID == id && k.Status == "finding" {
			c.mu.Lock()
			done := c.findings[id]
			c.findings[id] = true
			c.mu.Unlock()
			if !done {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.Prop, id, k.What)
			}
			return
		}
	}
	c.Violation(id, what, files)
}

// Violations returns how many violations were reported.
func (c *Ctx) Violations() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.violations)
}

func indent(s string) string { return strings.ReplaceAll(s, "\n", "\n  ") }
func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n...(clipped)"
	}
	return s
}

// Clip shortens text for messages.
func Clip(s string, n int) string { return clip(s, n) }

// Finish writes the evidence file.
func (c *Ctx) Finish() {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.cov["evaluations"] = c.evals
	c.cov["distinct_nontrivial"] = len(c.distinct)
	c.cov["rule"] = c.Rule
	if len(c.samples) == 0 {
		c.samples = append(c.samples, "none recorded")
	}
	c.cov["samples"] = c.samples
	c.cov["observed"] = c.counters
	if len(c.findings) > 0 {
		var f []string
		for k := range c.findings {
			f = append(f, k)
		}
		sort.Strings(f)
		c.cov["known_findings_seen"] = f
	}
	ev := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": c.cov, "wall_s": float64(int(time.Since(c.Start).Seconds()*10)) / 10, "violations": len(c.violations),
	}
	if len(c.Assume) > 0 {
		ev["assumptions"] = c.Assume
	}
	b, err := json.MarshalIndent(ev, "", " ")
	Must(err, "evidence")
	_ = os.MkdirAll(filepath.Join(Verif, "evidence"), 0o755)
	Must(os.WriteFile(filepath.Join(Verif, "evidence", c.Prop+".json"), append(b, '\n'), 0o644), "evidence")
}

// Env is the environment every Go command runs in.
func Env(goroot string, extra ...string) []string {
	home := envOr("HOME", "/root")
	env := []string{
		"HOME=" + home, "LANG=C.UTF-8", "TZ=UTC",
		"PATH=" + goroot + "/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
		"GOROOT=" + goroot, "GOTOOLCHAIN=local", "GOENV=off", "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOSUMDB=off",
		"GOPATH=" + envOr("GOPATH", home+"/go"), "GOMODCACHE=" + envOr("GOMODCACHE", home+"/go/pkg/mod"), "GOCACHE=" + envOr("GOCACHE", home+"/.cache/go-build"),
		"GOTELEMETRY=off", "CGO_ENABLED=" + envOr("CGO_ENABLED", "1"),
	}
	if t := os.Getenv("TMPDIR"); t != "" {
		env = append(env, "TMPDIR="+t)
	}
	return append(env, extra...)
}

// Result of a command.
type Result struct {
	Code    int
	Out     string
	Err     string
	Timeout bool
}

// Cmd is a command to run.
type Cmd struct {
	Dir     string
	Env     []string
	Args    []string
	Stdin   string
	Timeout time.Duration
	Dump    bool // ask for the goroutines' stacks before killing
}

// Run runs a command in its own process group, which is killed on a timeout.
func Run(c Cmd) Result {
	if c.Timeout == 0 {
		c.Timeout = 5 * time.Minute
	}
	ctx, cancel := context.WithTimeout(context.Background(), c.Timeout)
	defer cancel()
	name := c.Args[0]
	if name == "go" { // the one of the toolchain the environment names, not of our own PATH
		for _, e := range c.Env {
			if v, ok := strings.CutPrefix(e, "GOROOT="); ok {
				name = v + "/bin/go"
			}
		}
	}
	cmd := exec.Command(name, c.Args[1:]...)
	cmd.Dir = c.Dir
	cmd.Env = c.Env
	cmd.Stdin = strings.NewReader(c.Stdin)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	if err := cmd.Start(); err != nil {
		return Result{Code: -1, Err: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var err error
	timeout := false
	select {
	case err = <-done:
	case <-ctx.Done():
		timeout = true
		if c.Dump {
			_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
			select {
			case err = <-done:
			case <-time.After(15 * time.Second):
			}
		}
		_ = syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		if err == nil {
			err = <-done
		}
	}
	r := Result{Out: so.String(), Err: se.String(), Timeout: timeout}
	var ee *exec.ExitError
	if errors.As(err, &ee) {
		r.Code = ee.ExitCode()
	} else if err != nil {
		r.Code = -1
		r.Err += err.Error()
	}
	return r
}

// Gowrap builds the command from the working tree, once per run.
func (c *Ctx) Gowrap() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.gowrapBin != "" {
		return c.gowrapBin
	}
	bin := filepath.Join(c.Scratch, "bin", "gowrap")
	_ = os.MkdirAll(filepath.Dir(bin), 0o755)
	r := Run(Cmd{Dir: Repo, Env: Env(GoRoot), Args: []string{"go", "build", "-o", bin, "./cmd/gowrap"}})
	if r.Code != 0 {
		Fail("gowrap does not build: %s%s", r.Out, r.Err)
	}
	c.gowrapBin = bin
	return bin
}

// Gen runs "gowrap" in dir.
func (c *Ctx) Gen(dir string, args ...string) Result {
	return Run(Cmd{Dir: dir, Env: Env(GoRoot, "HTTPS_PROXY=http://127.0.0.1:1", "HTTP_PROXY=http://127.0.0.1:1"), Args: append([]string{c.Gowrap()}, args...), Timeout: 2 * time.Minute})
}

// Write writes a tree of files.
func Write(dir string, files map[string]string) {
	for n, b := range files {
		p := filepath.Join(dir, n)
		Must(os.MkdirAll(filepath.Dir(p), 0o755), "write")
		Must(os.WriteFile(p, []byte(b), 0o644), "write")
	}
}

// ReadTree reads a directory into a map of contents.
func ReadTree(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && i.Mode().IsRegular() {
			b, err := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			if err == nil {
				out[rel] = string(b)
			}
		}
		return nil
	})
	return out
}

// Parallel runs f(0..n-1) on all cores; a machinery failure in one is raised here.
func Parallel(n int, f func(i int)) {
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	var wg sync.WaitGroup
	ch := make(chan int)
	var mu sync.Mutex
	var failed any
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				func() {
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							if failed == nil {
								failed = r
							}
							mu.Unlock()
						}
					}()
					f(i)
				}()
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
	if failed != nil {
		panic(failed)
	}
}

// SeedFromEnv reads VERIF_SEED.
func SeedFromEnv() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

// Summary tells what was observed in one line.
func (c *Ctx) Summary() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	var ks []string
	for k, n := range c.counters {
		if strings.HasPrefix(k, "feature_") {
			continue
		}
		ks = append(ks, fmt.Sprintf("%s=%d", k, n))
	}
	sort.Strings(ks)
	return fmt.Sprintf("%d cases, %d distinct, %.1fs; %s", c.evals, len(c.distinct), time.Since(c.Start).Seconds(), strings.Join(ks, " "))
}
