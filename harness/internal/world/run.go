package world

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"time"

	"verifharness/internal/core"
)

// Monitor is one test binary that drives decorators.
type Monitor struct {
	Imports []string // in addition to decmod/rt and testing
	Body    string   // of the test function
	Shards  int      // runs with different seeds
	Timeout time.Duration
	Need    map[string]int
}

type line struct {
	K        string
	ID       string
	What     string
	Counters map[string]int
	Distinct int
}

var buildErr = regexp.MustCompile(`(?m)^(?:vet: )?\.?\.?/?[^\s:]+\.go:\d+:(?:\d+:)? .*$`)

// ReportFailed reports the decorators that were not generated.
func (w *World) ReportFailed() {
	for i, t := range w.Failed() {
		if i > 3 {
			break
		}
		w.C.Violation(fmt.Sprintf("generate/%s/%s/%s", t.Tmpl, t.Stat, t.Where), fmt.Sprintf("gowrap does not generate the decorator of %s with %s (%v):\n%s", t.Stat, t.Tmpl, t.Feats, t.Err), w.TargetFiles(t))
	}
}

// TargetFiles is the replay material of a decorator.
func (w *World) TargetFiles(t *Target) map[string]string {
	out := map[string]string{}
	root := strings.Split(t.Dir, "/")[0]
	if root == "" {
		out["source.txt"] = t.Stat + "\n"
		root = filepath.Dir(t.Out)
	}
	for n, b := range core.ReadTree(filepath.Join(w.Dir, root)) {
		if !strings.Contains(n, "zz_") {
			out["module/"+root+"/"+n] = b
		}
	}
	if b, err := os.ReadFile(filepath.Join(w.Dir, t.Out)); err == nil {
		out["generated.go"] = string(b)
	}
	return out
}

// Run builds the monitor with the race detector and runs it.
func (w *World) Run(m Monitor) {
	c := w.C
	w.ReportFailed()
	var b strings.Builder
	b.WriteString("package run\n\nimport (\n\t\"testing\"\n\t\"decmod/rt\"\n")
	for _, i := range m.Imports {
		fmt.Fprintf(&b, "\t%q\n", i)
	}
	b.WriteString(")\n\nfunc TestRun(t *testing.T) {\n\tdefer rt.Done()\n" + m.Body + "\n}\n")
	core.Write(w.Dir, map[string]string{"run/main_test.go": b.String()})
	bin := filepath.Join(w.Dir, "monitor.test")
	t0 := time.Now()
	r := core.Run(core.Cmd{Dir: w.Dir, Env: core.Env(core.DecGoRoot), Args: []string{"go", "test", "-race", "-vet=off", "-c", "-o", bin, "./run"}, Timeout: 12 * time.Minute})
	if r.Code != 0 {
		w.buildFailed(r)
		return
	}
	c.Count("build_seconds", int(time.Since(t0).Seconds()))
	if m.Shards == 0 {
		m.Shards = 1
	}
	if m.Timeout == 0 {
		m.Timeout = 4 * time.Minute
		if c.Thorough() {
			m.Timeout = 40 * time.Minute
		}
	}
	core.Parallel(m.Shards, func(i int) { w.shard(m, bin, i) })
	if c.Violations() == 0 {
		for k, n := range m.Need {
			c.Need(k, n)
		}
	}
}

func (w *World) buildFailed(r core.Result) {
	c := w.C
	text := r.Out + r.Err
	errs := buildErr.FindAllString(text, -1)
	hit := map[string]string{}
	var order []*Target
	for _, e := range errs {
		for _, t := range w.Targets {
			if strings.Contains(e, t.Out) || strings.Contains(e, filepath.Dir(t.Out)+"/zz_glue") {
				if t.Where == "same" && !strings.Contains(e, t.Out) {
					continue
				}
				k := t.Out
				if hit[k] == "" {
					order = append(order, t)
				}
				hit[k] += e + "\n"
			}
		}
	}
	if len(order) == 0 {
		if len(errs) > 0 && strings.Contains(text, "zz_glue") {
			c.Violation("compile/glue", "generated decorators cannot be used as the interfaces they decorate:\n"+core.Clip(text, 3000), nil)
			return
		}
		core.Fail("the monitors do not build:\n%s", core.Clip(text, 4000))
	}
	for i, t := range order {
		if i > 3 {
			break
		}
		c.Violation(fmt.Sprintf("compile/%s/%s/%s", t.Tmpl, t.Stat, t.Where), fmt.Sprintf("the decorator of %s generated with %s does not compile or does not implement the interface:\n%s", t.Stat, t.Tmpl, hit[t.Out]), w.TargetFiles(t))
	}
}

func (w *World) shard(m Monitor, bin string, i int) {
	c := w.C
	race := filepath.Join(w.Dir, fmt.Sprintf("race%d", i))
	r := core.Run(core.Cmd{Dir: filepath.Join(w.Dir, "run"), Args: []string{bin, "-test.timeout=0", "-test.run=TestRun", "-test.count=1"}, Timeout: m.Timeout, Dump: true,
		Env: core.Env(core.DecGoRoot, fmt.Sprintf("RT_SEED=%d", c.Seed*1000+int64(i)), "RT_TIER="+c.Tier,
			"GORACE=halt_on_error=0 exitcode=0 log_path="+race, "GOMAXPROCS=4", "ELASTIC_APM_ACTIVE=true")})
	var bad []string
	done := false
	for _, l := range strings.Split(r.Out, "\n") {
		js, ok := strings.CutPrefix(l, "@@")
		if !ok {
			continue
		}
		var e line
		if json.Unmarshal([]byte(js), &e) != nil {
			continue
		}
		switch e.K {
		case "viol":
			c.Finding(e.ID, e.What, map[string]string{"shard.txt": fmt.Sprintf("RT_SEED=%d RT_TIER=%s\n", c.Seed*1000+int64(i), c.Tier), "output.txt": core.Clip(r.Out, 200000)})
		case "bad":
			bad = append(bad, e.What)
		case "sample":
			c.Sample(e.What)
		case "done":
			done = true
			for k, n := range e.Counters {
				if !strings.HasPrefix(k, "_") {
					c.Count(k, n)
				}
			}
			c.EvalN(e.Counters["_evals"], fmt.Sprintf("shard%d", i), e.Distinct)
		}
	}
	// what the race detector saw
	logs, _ := filepath.Glob(race + "*")
	for _, f := range logs {
		b, _ := os.ReadFile(f)
		for _, rep := range strings.Split(string(b), "==================") {
			if strings.Contains(rep, "WARNING: DATA RACE") {
				c.Count("race_reports", 1)
				id, own := raceID(rep)
				if own {
					bad = append(bad, "the monitors race: "+core.Clip(rep, 2500))
					continue
				}
				c.Finding("race/"+id, "the race detector reports:\n"+core.Clip(rep, 2200), map[string]string{"race.txt": rep})
			}
		}
	}
	if c.Violations() > 0 {
		return
	}
	if len(bad) > 0 {
		core.Fail("problems of the monitors: %s", strings.Join(bad, "; "))
	}
	if r.Timeout {
		if f := hung.FindString(r.Err); f != "" {
			c.Violation("hang", fmt.Sprintf("the calls do not end in %v; the decorators are at\n%s", m.Timeout, core.Clip(r.Err[strings.Index(r.Err, f):], 2500)), map[string]string{"stacks.txt": core.Clip(r.Err, 200000)})
			return
		}
		core.Fail("the monitor did not end in %v:\n%s", m.Timeout, core.Clip(r.Err, 2000))
	}
	if !done || r.Code != 0 {
		// the process died: a crash in code that decorators started is one of theirs
		text := r.Err
		if k := strings.Index(r.Out, "panic:"); k >= 0 {
			text = r.Out[k:] + text
		}
		if strings.Contains(text, "panic:") || strings.Contains(text, "fatal error:") {
			c.Violation("crash", "the process that uses the decorators dies:\n"+core.Clip(text, 3000), map[string]string{"output.txt": core.Clip(r.Out+r.Err, 200000)})
			return
		}
		core.Fail("the monitor failed (exit %d):\n%s", r.Code, core.Clip(r.Out+r.Err, 3000))
	}
}

var (
	access   = regexp.MustCompile(`(?m)^(?:Previous )?(?:atomic )?(?:[Rr]ead|[Ww]rite) at .*\n(?:  .*\n)*`)
	funcLine = regexp.MustCompile(`(?m)^  (\S.*)\(\)\n\s+(\S+):\d+`)
)

// hung finds a function of a generated file on a stack.
var hung = regexp.MustCompile(`(?m)^\S.*\n\t\S+/(?:out|zz_k)\S*\.go:\d+`)

func generated(file string) bool {
	f := filepath.Base(file)
	return strings.HasPrefix(f, "out") || strings.HasPrefix(f, "zz_k")
}

// raceID names a race by the generated functions involved; own tells that both
// accesses are made by the monitors.
func raceID(rep string) (string, bool) {
	var fs []string
	for _, m := range funcLine.FindAllStringSubmatch(rep, -1) {
		if generated(m[2]) && len(fs) < 2 {
			fs = append(fs, m[1])
		}
	}
	own, seen := true, 0
	for _, a := range access.FindAllString(rep, -1) {
		for _, m := range funcLine.FindAllStringSubmatch(a, -1) {
			if strings.Contains(m[2], core.DecGoRoot) {
				continue
			}
			seen++
			if !strings.Contains(m[2], "/rt") && !strings.Contains(m[2], "/hook/") && !strings.Contains(m[2], "/zz_glue") {
				own = false
			}
			break
		}
	}
	return strings.Join(fs, "--"), own && (seen == 2 || len(fs) == 0)
}
