package checks

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/scanner"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verifharness/internal/core"
	"verifharness/internal/progen"
)

const libBody = `
{{.Import "fmt" "lib/imp/util"}}
{{$d := printf "Lib%s" .Interface.Name}}// {{$d}} decorates {{.Interface.Type}}
type {{$d}}{{.Interface.Generics.Types}} struct{ base {{.Interface.Type}}{{.Interface.Generics.Params}} }

{{range $k, $m := .Interface.Methods}}
{{range $m.Doc}}{{.}}
{{end}}func (_d {{$d}}{{$.Interface.Generics.Params}}) {{$m.Declaration}} {
	_, _ = fmt.Println(util.X, {{printf "%q" $k}})
	{{if $m.HasParams}}_s := {{$m.ParamsStruct}}{ {{$m.ParamsNames}} }; _ = _s{{end}}
	{{$m.Pass "_d.base."}}
}
{{end}}
`

var libFails = []string{
	libBody + "{{.Nope}}",
	libBody + "\nfunc {",
	"{{range .Interface.Methods}}// {{.Name}}\n{{end}}{{index .Vars.nothing 3}}",
	"{{shout .Interface}}",
	"{{range $k, $m := .Interface.Methods}}func x{{$k}}() {}\n{{$m.Nope}}{{end}}",
}

type libJob struct {
	Interface, Source, Out string
	Body, Prefix           string
	Alias                  string
	Imports                []string
	Vars                   map[string]any
	Fails                  string
}

type libResult struct {
	Outs  map[string]string
	Notes []string
	Cuts  int
}

func init() {
	reg("C32", func(c *core.Ctx) {
		c.Rule = "a case is one generator made through the library; non-trivial: distinct pairs of an interface and a variation of the options"
		c.Assume = []string{"the command's output is the reference for the base options (the other checks judge it)", "the tokens of two outputs are compared for aliases, the formatting around an alias is not"}
		bin := c.Driver("lib")
		dir := c.Dir("lib")
		core.Write(dir, map[string]string{"go.mod": "module lib\n\ngo 1.24\n", "imp/util/util.go": "package util\n\nvar X = 1\n", "lib.tmpl": libBody})
		var jobs []libJob
		var srcs []string
		prefixes := []string{"", "", "lib", "lib/imp", "context,lib/imp", "lib/p0/src,net"}
		for i := 0; i < c.Pick(6, 60); i++ {
			r := rand.New(rand.NewSource(c.Seed*60013 + int64(i)))
			m := progen.New(r, fmt.Sprintf("lib/p%d", i), progen.Opts{Interfaces: 5, Embeds: true, Generics: i%2 == 1, Local: i%4 == 2, Hostile: i%3 == 0})
			fs := map[string]string{}
			for f, b := range m.Files {
				if f != "go.mod" {
					fs[fmt.Sprintf("p%d/%s", i, f)] = b
				}
			}
			core.Write(dir, fs)
			srcs = append(srcs, fmt.Sprintf("lib/p%d/src", i))
			for k, it := range m.Ifaces {
				for w := 0; w < 3; w++ {
					j := libJob{Interface: it.Name, Source: fmt.Sprintf("lib/p%d/src", i), Body: libBody, Prefix: prefixes[r.Intn(len(prefixes))], Alias: []string{"zzalias", "_zz", "źródło", "Zz9_"}[r.Intn(4)], Fails: libFails[r.Intn(len(libFails))]}
					j.Out = []string{fmt.Sprintf("p%d/src/zz_%d.go", i, k), fmt.Sprintf("p%d/new%d/sub/x.go", i, k), "imp/out.go"}[w]
					if w == 2 {
						core.Write(dir, map[string]string{"imp/there.go": "package impother\n"})
					}
					if r.Intn(2) == 0 {
						j.Vars = map[string]any{"a": "1", "b": true}
					}
					if r.Intn(2) == 0 {
						j.Imports = []string{`zurl "net/url"`, ` "strings"`, `"strings"`}
					}
					jobs = append(jobs, j)
				}
			}
		}
		l := core.Load(core.GoRoot, dir, srcs...)
		for _, s := range srcs {
			if e := l.Err(s); e != "" {
				core.Fail("a source package of the harness does not compile: %s: %s", s, e)
			}
		}
		for _, s := range []string{"io", "net/http", "database/sql/driver", "go/types", "sort", "container/heap"} {
			for _, n := range map[string][]string{"io": {"ReadWriteSeeker"}, "net/http": {"CookieJar", "ResponseWriter"}, "database/sql/driver": {"ConnBeginTx"}, "go/types": {"ImporterFrom"}, "sort": {"Interface"}, "container/heap": {"Interface"}}[s] {
				jobs = append(jobs, libJob{Interface: n, Source: s, Out: "std/x.go", Body: libBody, Alias: "zzalias", Imports: []string{`zurl "net/url"`}, Fails: libFails[len(jobs)%len(libFails)]})
			}
		}
		jobs = append(jobs, libJob{Interface: "Nope", Source: "io", Out: "std/x.go", Body: libBody, Alias: "zzalias", Fails: libFails[0]})
		in, err := json.Marshal(map[string]any{"Jobs": jobs})
		core.Must(err, "jobs")
		res := core.Run(core.Cmd{Dir: dir, Env: core.Env(core.GoRoot, "HTTPS_PROXY=http://127.0.0.1:1"), Args: []string{bin}, Stdin: string(in)})
		var outs []libResult
		if err := json.Unmarshal([]byte(res.Out), &outs); err != nil || len(outs) != len(jobs) {
			if crashed(res.Err) {
				c.Finding("crash", "the library crashes:\n"+core.Clip(res.Err, 2500), map[string]string{"input.json": string(in), "stderr.txt": res.Err})
				return
			}
			core.Fail("the driver fails: %d %s", res.Code, core.Clip(res.Err, 1500))
		}
		cli := make([]core.Result, len(jobs))
		cliOut := make([]string, len(jobs))
		core.Parallel(len(jobs), func(i int) {
			j := jobs[i]
			// a name that the go command does not look at while others load the package
			out := strings.TrimSuffix(j.Out, ".go") + fmt.Sprintf("_cli%d.go.txt", i)
			args := []string{"gen", "-g", "-p", j.Source, "-i", j.Interface, "-t", "lib.tmpl", "-o", out, "-l", j.Prefix}
			for _, k := range []string{"a", "b"} {
				if v, ok := j.Vars[k]; ok {
					if v == true {
						args = append(args, "-v", k)
					} else {
						args = append(args, "-v", fmt.Sprintf("%s=%v", k, v))
					}
				}
			}
			cli[i] = c.Gen(dir, args...)
			if b, err := os.ReadFile(filepath.Join(dir, out)); err == nil {
				cliOut[i] = string(b)
			}
		})
		for i, j := range jobs {
			checkLib(c, j, outs[i], cli[i], cliOut[i])
		}
		if c.Violations() == 0 {
			c.Need("good_outputs", 500)
			c.Need("failing_writers", 200)
			c.Need("aliased_outputs", 30)
			c.Need("failing_templates", 60)
		}
	})
}

func checkLib(c *core.Ctx, j libJob, r libResult, cli core.Result, cliOut string) {
	key := fmt.Sprintf("%s/%s/%s", j.Source, j.Interface, j.Out)
	js, _ := json.MarshalIndent(j, "", " ")
	files := map[string]string{"job.json": string(js), "body.tmpl": j.Body, "command.go": cliOut, "command.err": cli.Err}
	for n, o := range r.Outs {
		files["out/"+strings.ReplaceAll(n, " ", "_")+".go"] = o
	}
	bad := func(what, f string, a ...any) {
		c.Finding(what+"/"+key, fmt.Sprintf("%s of %s to %s: ", j.Interface, j.Source, j.Out)+fmt.Sprintf(f, a...), files)
	}
	for _, n := range r.Notes {
		bad("note", "%s", core.Clip(n, 1500))
	}
	for n := range r.Outs {
		c.Eval(key + n)
	}
	base := r.Outs["base"]
	c.Count("failing_writers", r.Cuts)
	if !strings.HasPrefix(r.Outs["fails"], "error: ") {
		bad("fails", "a template that fails yields\n%s", core.Clip(r.Outs["fails"], 800))
	}
	c.Count("failing_templates", 1)
	if strings.HasPrefix(base, "error: ") {
		c.Count("refused", 1)
		if cli.Code == 0 {
			bad("refused", "the library refuses what the command does: %s", core.Clip(base, 600))
		}
		for n, o := range r.Outs {
			if n != "fails" && !strings.HasPrefix(o, "error: ") {
				bad("variation", "the library refuses it (%s) but not with the variation %q", core.Clip(base, 600), n)
			}
		}
		return
	}
	c.Count("good_outputs", len(r.Outs))
	if cli.Code != 0 {
		bad("command", "the command refuses what the library does: %s", core.Clip(cli.Err, 800))
	} else if k := strings.Index(cliOut, "\npackage "); k < 0 || cliOut[k+1:] != base {
		bad("command", "the command writes something else than the library:\n%s\n--- the library:\n%s", core.Clip(cliOut, 1200), core.Clip(base, 1200))
	}
	for _, n := range []string{"plain path", "absolute path", "unclean path", "instance", "instance only", "spare", "no vars", "empty vars"} {
		if o, ok := r.Outs[n]; ok && o != base {
			bad("variation", "the variation %q of the options changes the result:\n%s\n--- without:\n%s", n, core.Clip(o, 1200), core.Clip(base, 1200))
		}
	}
	for _, n := range []string{"alias", "rich"} {
		if o := r.Outs[n+" instance"]; o != r.Outs[n] {
			bad("variation", "%s options yield something else with a preloaded package:\n%s\n--- without:\n%s", n, core.Clip(o, 1200), core.Clip(r.Outs[n], 1200))
		}
	}
	if o, ok := r.Outs["imports"]; ok && !sameButNames(o, base) {
		// unused imports are removed; an import of the same path may be named explicitly
		bad("imports", "imports that are not used change the result:\n%s\n--- without:\n%s", core.Clip(o, 1200), core.Clip(base, 1200))
	}
	if o, ok := r.Outs["used imports"]; ok {
		im, _, err := splitImports(o)
		if err != nil || !contains(im, `zurl "net/url"`) {
			bad("imports", "the import zurl \"net/url\" of the options is not in the file (%v): %q", err, im)
		}
	}
	rich := r.Outs["rich"]
	want := []string{fmt.Sprintf("// %s! 42 3 %s a=b 5\n", strings.ToUpper(j.Interface), j.Source), "// item x\n// item y\n// n 8 " + strings.ToUpper(j.Interface) + "!\n"}
	for _, w := range want {
		if !strings.Contains(rich, w) {
			bad("rich", "variables, header variables or functions of the options do not reach the templates: no %q in\n%s", w, core.Clip(rich, 1500))
		}
	}
	// an alias takes the place of the default name of the source package
	ai, at, err := splitImports(r.Outs["alias"])
	if err != nil {
		bad("alias", "with the alias %s: %v\n%s", j.Alias, err, core.Clip(r.Outs["alias"], 1200))
		return
	}
	bi, bt, err := splitImports(base)
	core.Must(err, "the base output")
	def := ""
	for _, s := range bi {
		if strings.HasSuffix(s, ` "`+j.Source+`"`) && strings.HasPrefix(s, "_source") {
			def = strings.Fields(s)[0]
		}
	}
	if def != "" {
		c.Count("aliased_outputs", 1)
		for k, s := range bi {
			if strings.HasPrefix(s, def+" ") {
				bi[k] = j.Alias + s[len(def):]
			}
		}
		for k, s := range bt {
			if s == def {
				bt[k] = j.Alias
			} else if strings.HasPrefix(s, "//") {
				bt[k] = strings.ReplaceAll(s, def+".", j.Alias+".")
			}
		}
		sort.Strings(bi)
	}
	if strings.Join(ai, "\n") != strings.Join(bi, "\n") || strings.Join(at, "\n") != strings.Join(bt, "\n") {
		bad("alias", "with the alias %s (default %q) the result is\n%s\n--- without:\n%s", j.Alias, def, core.Clip(r.Outs["alias"], 1500), core.Clip(base, 1500))
	}
}

// sameButNames tells that two files differ in import names that only repeat
// the last element of the path at most.
func sameButNames(a, b string) bool {
	if a == b {
		return true
	}
	ai, at, e1 := splitImports(a)
	bi, bt, e2 := splitImports(b)
	plain := func(l []string) string {
		for k, s := range l {
			if f := strings.Fields(s); len(f) == 2 && strings.HasSuffix(f[1], "/"+f[0]+`"`) {
				l[k] = f[1]
			}
		}
		sort.Strings(l)
		return strings.Join(l, "\n")
	}
	return e1 == nil && e2 == nil && plain(ai) == plain(bi) && strings.Join(at, "\n") == strings.Join(bt, "\n")
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// splitImports returns the sorted imports of a file and the tokens of the rest.
func splitImports(src string) (imps, toks []string, err error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, "x.go", src, parser.ParseComments)
	if err != nil {
		return nil, nil, err
	}
	for _, i := range f.Imports {
		s := i.Path.Value
		if i.Name != nil {
			s = i.Name.Name + " " + s
		}
		imps = append(imps, s)
	}
	sort.Strings(imps)
	from := 0
	for _, d := range f.Decls {
		if g := fs.Position(d.End()).Offset; len(f.Imports) > 0 && d.Pos() <= f.Imports[len(f.Imports)-1].Pos() {
			from = g
		}
	}
	var s scanner.Scanner
	rest := []byte(src[from:])
	s.Init(fs.AddFile("rest", -1, len(rest)), rest, nil, scanner.ScanComments)
	for {
		_, t, lit := s.Scan()
		if t == token.EOF {
			return imps, toks, nil
		}
		if lit == "" {
			lit = t.String()
		}
		// what depends on where the lines break
		if lit == ";" || lit == "\n" {
			continue
		}
		if n := len(toks); n > 0 && toks[n-1] == "," && strings.Contains(")]}", lit) {
			toks = toks[:n-1]
		}
		toks = append(toks, lit)
	}
}
