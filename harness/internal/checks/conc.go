package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"path/filepath"
	"regexp"
	"strings"

	"verifharness/internal/core"
)

type concJob struct {
	Interface, Source, Alias, Out, Header, Body, Prefix string
	Imports                                             []string
	Spare                                               int
	Share                                               int
	Vars                                                map[string]any
	Preload                                             bool
	Args                                                []string
	Outfile                                             string
}

const concHeader = "package {{.Package.Name}}\n{{delay}}\n// from {{.SourcePackage.Name}} {{.Options.InterfaceName}} {{.Options.HeaderVars.N}}\n"

const concBody = `
{{.Import "fmt" "m/loc/util" "gith.ub/x/ext"}}{{delay}}
{{$d := .Vars.Dec}}type {{$d}}{{.Interface.Generics.Types}} struct{ base {{.Interface.Type}}{{.Interface.Generics.Params}} }

{{range $k, $m := .Interface.Methods}}{{delay}}
{{range $m.Doc}}{{.}}
{{end}}func (d {{$d}}{{$.Interface.Generics.Params}}) {{$m.Declaration}} {
	fmt.Println(util.X, ext.X, "{{$.Vars.Note}}")
	{{delay}}{{$m.Pass "d.base."}}
}

{{end}}
`

func init() {
	reg("C12", func(c *core.Ctx) {
		c.Rule = "a case is a call of the generator or of the command that overlaps with others; non-trivial: distinct pairs of a job and a round of concurrent calls"
		c.Assume = []string{"the race detector sees the races on the schedules that occur", "the packages gowrap imports are safe"}
		bin := c.Driver("conc", "-race")
		dir := c.Dir("m")
		core.Write(dir, map[string]string{
			"go.mod":           "module m\n\ngo 1.24\n\nrequire gith.ub/x/ext v0.0.0\n\nreplace gith.ub/x/ext => ./ext\n",
			"ext/go.mod":       "module gith.ub/x/ext\n\ngo 1.24\n",
			"ext/ext.go":       "package ext\n\nvar X = 1\n",
			"loc/util/util.go": "package util\n\nvar X = 1\n\ntype U struct{}\n\ntype Emb interface {\n\tFar(u U, us ...*U) error\n}\n",
			"a/a.go":           "package a\n\nimport (\n\t\"context\"\n\t\"io\"\n\n\t\"m/loc/util\"\n)\n\n// T is a type\ntype T struct{ X int }\n\ntype Near interface {\n\t// Near is documented\n\tNear(t T) (io.Reader, error)\n}\n\ntype Iface interface {\n\tNear\n\tutil.Emb\n\tDo(ctx context.Context, xs map[string]*T, f func(T) (util.U, error), rest ...interface{ M(T) }) (n int, err error)\n\tio.Closer\n}\n",
			"a/b.go":           "package a\n\nimport \"time\"\n\ntype Clock interface {\n\tNow() time.Time\n\tSleep(time.Duration, [N]T) struct {\n\t\tA T `json:\"a\"`\n\t}\n}\n\nconst N = 3\n\ntype Bad interface{}\n",
			"g/g.go":           "package g\n\nimport \"m/a\"\n\ntype Num interface{ ~int | ~float64 }\n\ntype Base[K comparable, V any] interface {\n\tGet(K) (V, error)\n}\n\ntype Store[K comparable, V Num] interface {\n\tBase[K, []V]\n\tPut(k K, v V, ts ...a.T) map[K]V\n}\n",
			"asm/a.go":         "package asm\n\nimport \"m/asm2\"\n\ntype Adder interface {\n\tasm2.Subber\n\tAdd(a, b int) T\n}\n",
			"asm/b.go":         "package asm\n\ntype T int\n",
			"asm/c.go":         "package asm\n\nconst C = 1\n",
			"asm/a.s":          "// nothing\n",
			"asm2/a.go":        "package asm2\n\ntype Subber interface{ Sub(a T, b ...T) error }\n",
			"asm2/b.go":        "package asm2\n\ntype T int\n",
			"asm2/c.go":        "package asm2\n\nconst C = 1\n",
			"asm2/a.s":         "// nothing\n",
			"t.tmpl":           "{{ $d := upFirst (printf \"dec%s\" .Interface.Name) }}type {{$d}} struct{}\n\n{{range .Interface.Methods}}func (d {{$d}}) {{.Name | snake | upFirst}}{{.Signature}} { panic({{.Name | quote}}) }\n\n{{end}}\n",
		})
		r := rand.New(rand.NewSource(c.Seed * 733))
		var jobs []concJob
		prefixes := []string{"", "m", "m/loc", "gith.ub", "m/a,gith.ub/x", "m/loc,m/a"}
		type src struct{ p, i string }
		srcs := []src{{"m/a", "Iface"}, {"m/a", "Near"}, {"m/a", "Clock"}, {"m/g", "Store"}, {"m/loc/util", "Emb"}, {"m/asm", "Adder"}, {"io", "ReadWriteCloser"}, {"sort", "Interface"}, {"m/a", "Bad"}, {"m/a", "Nope"}}
		for i, s := range srcs {
			for v := 0; v < c.Pick(3, 6); v++ {
				j := concJob{Interface: s.i, Source: s.p, Out: []string{"./out/x.go", "./a/x.go", "./missing/y.go", "./g/z_test.go"}[(i+v)%4], Header: concHeader, Body: concBody, Prefix: prefixes[r.Intn(len(prefixes))], Vars: map[string]any{"Dec": fmt.Sprintf("Dec%d", i), "Note": strings.Repeat("n", v)}, Preload: v > 0, Spare: r.Intn(5)}
				if s.p == "io" || s.p == "sort" {
					j.Out = "./out/x.go"
				}
				if v == 1 || r.Intn(4) == 0 {
					j.Share = 1 + i%2
					j.Vars = map[string]any{"Dec": fmt.Sprintf("Shared%d", i%2), "Note": "shared", "InterfaceName": "other", "DecoratorName": nil, "Funcs": 1}
				}
				if r.Intn(3) == 0 {
					j.Alias = "alias" + fmt.Sprint(v)
				}
				if r.Intn(2) == 0 {
					j.Imports = []string{`str "strings"`, `"m/loc/util"`}
				}
				if i == 1 && v == 0 {
					j.Body = "not Go {{delay}}"
				}
				if i == 2 && v == 0 {
					j.Body = "{{delay}}{{.Nope}}"
				}
				jobs = append(jobs, j)
			}
		}
		for i, s := range srcs[:8] {
			tm := []string{"t.tmpl", filepath.Join(core.Repo, "templates", []string{"log", "retry", "timeout", "syncpool", "ratelimit", "fallback", "robinpool", "log"}[i])}[r.Intn(2)]
			if s.p == "m/g" {
				tm = "t.tmpl"
			}
			jobs = append(jobs, concJob{Args: []string{"-p", s.p, "-i", s.i, "-t", tm, "-l", prefixes[r.Intn(len(prefixes))], "-v", fmt.Sprintf("k=%d", i)}, Outfile: fmt.Sprintf("o%d.go", i)})
		}
		in, err := json.Marshal(map[string]any{"Seed": c.Seed, "Rounds": c.Pick(6, 40), "Workers": c.Pick(12, 24), "PerWorker": c.Pick(6, 12), "Jobs": jobs})
		core.Must(err, "jobs")
		res := core.Run(core.Cmd{Dir: dir, Env: core.Env(core.GoRoot, "GORACE=halt_on_error=0 history_size=4 exitcode=0", "HTTPS_PROXY=http://127.0.0.1:1"), Args: []string{bin}, Stdin: string(in)})
		for _, rep := range raceReports(res.Err) {
			if strings.Contains(rep, "github.com/hexdigest/gowrap/") || strings.Contains(rep, "/hexdigest/gowrap.") {
				c.Finding("race/"+raceKey(rep), "data race in concurrent use of the generator:\n"+core.Clip(rep, 2000), map[string]string{"report.txt": rep, "input.json": string(in)})
			} else {
				c.Count("races_elsewhere", 1)
			}
		}
		var out struct {
			Alone    map[int]string
			Diffs    []string
			Runs     int
			Made     int
			Overlaps int
			Orders   int
			Pairs    int
		}
		if err := json.Unmarshal([]byte(res.Out), &out); err != nil {
			if crashed(res.Err) {
				c.Finding("crash", "concurrent use of the generator crashes:\n"+core.Clip(res.Err, 2500), map[string]string{"input.json": string(in), "stderr.txt": res.Err})
				return
			}
			if c.Violations() > 0 {
				return
			}
			core.Fail("the driver fails: %d %s", res.Code, core.Clip(res.Err, 1500))
		}
		for i, d := range out.Diffs {
			c.Finding(fmt.Sprintf("output/%d", i), "a generator gives another result when others run:\n"+core.Clip(d, 2500), map[string]string{"diff.txt": d, "input.json": string(in)})
		}
		good := 0
		for i, o := range out.Alone {
			if !strings.HasPrefix(o, "error: ") {
				good++
			} else if i%7 == 0 {
				c.Sample(map[string]any{"job": i, "alone": core.Clip(o, 200)})
			}
		}
		c.EvalN(out.Runs, "calls", out.Pairs)
		c.Count("calls", out.Runs)
		c.Count("generators_made_concurrently", out.Made)
		c.Count("overlapping_calls", out.Overlaps)
		c.Count("distinct_schedules", out.Orders)
		c.Count("jobs", len(jobs))
		c.Count("jobs_with_output", good)
		if c.Violations() == 0 {
			c.Need("overlapping_calls", out.Runs/2)
			c.Need("generators_made_concurrently", 50)
			c.Need("jobs_with_output", len(jobs)*2/3)
		}
	})
}

var raceSep = regexp.MustCompile(`(?m)^==================$`)

func raceReports(stderr string) []string {
	var out []string
	for _, s := range raceSep.Split(stderr, -1) {
		if strings.Contains(s, "WARNING: DATA RACE") {
			out = append(out, s)
		}
	}
	return out
}

var raceFrame = regexp.MustCompile(`(?m)^  (\S*hexdigest/gowrap\S*)\(`)

// raceKey names a race by the functions of gowrap it is in.
func raceKey(rep string) string {
	seen := map[string]bool{}
	var ks []string
	for _, m := range raceFrame.FindAllStringSubmatch(rep, -1) {
		k := m[1][strings.LastIndex(m[1], "/")+1:]
		if !seen[k] && !strings.Contains(m[1], "verif_driver") {
			seen[k] = true
			ks = append(ks, k)
		}
	}
	return core.Clip(strings.Join(ks, " "), 160)
}
