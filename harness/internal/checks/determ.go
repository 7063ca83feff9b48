package checks

import (
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"verifharness/internal/core"
	"verifharness/internal/progen"
)

// determTemplates use everything whose order or quoting could vary.
var determTemplates = map[string]string{
	"dump": `{{.Import "fmt" "sort"}}
const zzJSON{{.Interface.Name}} = {{toJson .Interface | printf "%q"}}
const zzVars{{.Interface.Name}} = {{toJson .Vars | printf "%q"}}
{{range $k, $v := .Vars}}
const _ = {{printf "%q" $k}} + {{printf "%q" (printf "%T %v" $v $v)}}
{{end}}
var _ = sort.Strings
var _ = fmt.Sprint
type D{{.Interface.Name}}{{.Interface.Generics.Types}} struct{ z {{.Interface.Type}}{{.Interface.Generics.Params}} }
{{range $m := .Interface.Methods}}
func (zzd D{{$.Interface.Name}}{{$.Interface.Generics.Params}}) {{$m.Declaration}} { {{if $m.HasResults}}return {{end}}zzd.z.{{$m.Call}} }
{{end}}
`,
	"plain": `import (
	"context"
	"net/http"
	_ "embed"
)
{{ $n := (or .Vars.DecoratorName (printf "P%s" .Interface.Name)) }}
// made of {{.Interface.Type}}
type Zz{{.Interface.Name}}{{.Interface.Generics.Types}} struct{
	_ context.Context
	_ http.Handler
	z {{.Interface.Type}}{{.Interface.Generics.Params}}
}
{{range $k, $m := .Interface.Methods}}{{range $m.Doc}}
{{.}}{{end}}
func (zzd Zz{{$.Interface.Name}}{{$.Interface.Generics.Params}}) {{$m.Declaration}} { {{$m.Pass "zzd.z."}} }
{{end}}
var _ = {{quote $n}}
{{range $i, $m := .Imports}}
// {{$i}} {{$m}}{{end}}
`,
}

var oddNames = []string{"t.tmpl", "my template", "dollar$HOME", "a'b", "quo\"te", "eq=ual", "back\\slash", "per%cent", "üní", "tab\there", "-dash", "semi;colon", "back`tick", "#hash", "a,b", "{{brace}}", "${DOLLAR}", "x//y", "nbsp\u00a0x", "two  spaces", " leading", "trailing ", "*star?", "~tilde", "new\nline"}

var oddOuts = []string{"out.go", "out gen.go", "out$GOFILE.go", "o'ut.go", "o\"ut.go", "out=x.go", "öut.go", "gen_test.go", "out%d.go", "a,b.go", "out.gen.go", "o`ut.go", "o#ut.go", "zz'${X}.go", "out two  spaces.go", "_out.go", ".out.go", "out_windows.go", "x_test.go", "out_linux_arm64.go", "OUT.go"}

var oddVars = []string{"DecoratorName=Abc", "a=b", "flag", "x=", "=y", "=", "a=b=c", "sp=one two", "q=say \"hi\"", "d=$HOME ${PATH} $$", "nl=line1\nline2", "tab=a\tb", "uni=ünï ☃", "bad=\xff\xfe", "bs=a\\nb\\", "sq='x'", "bt=`x`", "hash=#1", "pc=100%d %s", "empty name =v", "-dash=1", "nb=a\u00a0b\u2028c", "sp ace", "quo\"te", "doll$ar", "x=\"", "x= ", "zero=\u200bx", "a=1", "a=2", "html=<a&b>", "tmpl={{.X}}", "ctl=\x01\x7f", "bom=\ufeffx"}

var oddPrefixes = []string{"", "probe", "probe/", "context", "example.com/none", "probe,context", "net,io,probe/p0", "a b", "$HOME", "pro\"be", "time,$X", ",", "probe, time"}

// genLine is what the go command asks of a generated file.
var genLine = regexp.MustCompile(`^// Code generated .* DO NOT EDIT\.$`)

type determCase struct {
	dir   string // of the case, in the module
	p, i  string
	tmpl  string // path relative to the module
	tref  string // what is given to -t when run in the module's directory
	out   string
	vars  []string
	l     *string
	noGen bool
	feats []string
}

func (k determCase) args(tref, out string) []string {
	a := []string{"gen", "-p", k.p, "-i", k.i, "-t", tref, "-o", out}
	for _, v := range k.vars {
		a = append(a, "-v", v)
	}
	if k.l != nil {
		a = append(a, "-l", *k.l)
	}
	if k.noGen {
		a = append(a, "-g")
	}
	return a
}

func init() {
	reg("C06", func(c *core.Ctx) {
		c.Rule = "a case is one request: interface, template location, output name, variables, local prefix; each is run five times in different places and states and once by go generate; non-trivial: distinct request"
		c.Assume = []string{"the installed go command runs the directives; file names its build rules exclude are not generated", "the environments of the runs differ in HOME, TMPDIR, the current directory and the order of nothing else"}
		dir := c.Dir("probe")
		core.Write(dir, map[string]string{"go.mod": "module probe\n\ngo 1.24\n"})
		var mu sync.Mutex
		served := 0
		srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
			mu.Lock()
			served++
			mu.Unlock()
			_, _ = w.Write([]byte(determTemplates["dump"]))
		}))
		defer srv.Close()
		var cs []determCase
		n := c.Pick(10, 120)
		for i := 0; i < n; i++ {
			r := rand.New(rand.NewSource(c.Seed*7919 + int64(i)))
			path := fmt.Sprintf("probe/p%d", i)
			m := progen.New(r, path, progen.Opts{Interfaces: 5, Embeds: true, Hostile: true, Generics: true, MaxMethods: 6})
			fs := map[string]string{}
			for f, b := range m.Files {
				if f != "go.mod" {
					fs[fmt.Sprintf("p%d/%s", i, f)] = b
				}
			}
			core.Write(dir, fs)
			for k, it := range m.Ifaces {
				kc := determCase{dir: fmt.Sprintf("p%d", i), p: path + "/src", i: it.Name, noGen: r.Intn(8) == 0}
				kc.out = fmt.Sprintf("p%d/dst%d/%s", i, k, oddOuts[r.Intn(len(oddOuts))])
				if r.Intn(4) == 0 {
					kc.out = fmt.Sprintf("p%d/src/zz%d%s", i, k, oddOuts[r.Intn(len(oddOuts))])
					kc.feats = append(kc.feats, "same-package")
				}
				for v := r.Intn(5); v > 0; v-- {
					kc.vars = append(kc.vars, oddVars[r.Intn(len(oddVars))])
				}
				if r.Intn(2) == 0 {
					l := oddPrefixes[r.Intn(len(oddPrefixes))]
					kc.l = &l
				}
				names := []string{"dump", "plain"}
				t := names[r.Intn(2)]
				switch r.Intn(8) {
				case 0:
					kc.tref = srv.URL + "/t?" + url.QueryEscape(oddNames[r.Intn(len(oddNames))]) + []string{"", "&a=$HOME", "&x='y'", "&q=\"z\""}[r.Intn(4)]
					kc.feats = append(kc.feats, "url")
				case 1:
					kc.tmpl = fmt.Sprintf("p%d/tm%d/%s", i, k, oddNames[r.Intn(len(oddNames))])
					kc.tref = "file://" + kc.tmpl
					kc.feats = append(kc.feats, "file-url")
				case 2:
					kc.tmpl = fmt.Sprintf("p%d/dst%d/%s", i, k, oddNames[r.Intn(len(oddNames))])
					kc.tref = kc.tmpl
					kc.feats = append(kc.feats, "beside-output")
				case 3:
					kc.tmpl = fmt.Sprintf("p%d/%s/%s", i, oddNames[1+r.Intn(len(oddNames)-1)], oddNames[r.Intn(len(oddNames))])
					kc.tref = filepath.Join(dir, kc.tmpl)
					kc.feats = append(kc.feats, "absolute")
				default:
					kc.tmpl = fmt.Sprintf("p%d/tm%d/%s", i, k, oddNames[r.Intn(len(oddNames))])
					kc.tref = kc.tmpl
				}
				if kc.tmpl != "" {
					core.Write(dir, map[string]string{kc.tmpl: determTemplates[t]})
				}
				cs = append(cs, kc)
			}
		}
		gw := filepath.Dir(c.Gowrap())
		byDir := map[string][]determCase{}
		var dirs []string
		for _, k := range cs {
			if byDir[k.dir] == nil {
				dirs = append(dirs, k.dir)
			}
			byDir[k.dir] = append(byDir[k.dir], k)
		}
		core.Parallel(len(dirs), func(i int) {
			for _, k := range byDir[dirs[i]] {
				checkDeterm(c, dir, gw, k)
			}
		})
		if c.Violations() == 0 {
			c.Need("go_generate_round_trips", n*3)
			c.Need("repeated_runs", n*18)
			c.Need("without_directive", n/5)
			c.Need("through_links", n*3)
			if served == 0 {
				core.Fail("no template was requested from the server")
			}
		}
	})
}

func checkDeterm(c *core.Ctx, dir, gw string, k determCase) {
	id := fmt.Sprintf("%s.%s %v", k.p, k.i, k.feats)
	cmdline := fmt.Sprintf("gowrap %q in %s", k.args(k.tref, k.out), dir)
	out := filepath.Join(dir, k.out)
	read := func() string {
		b, err := os.ReadFile(out)
		if err != nil {
			return "no output: " + err.Error()
		}
		return string(b)
	}
	rep := func(extra ...string) map[string]string {
		m := map[string]string{"command.txt": cmdline}
		for i := 0; i+1 < len(extra); i += 2 {
			m[extra[i]] = extra[i+1]
		}
		return m
	}
	env := func(h string) []string {
		return core.Env(core.GoRoot, "HTTPS_PROXY=http://127.0.0.1:1", "HTTP_PROXY=http://127.0.0.1:1", "XDG_CONFIG_HOME="+h)
	}
	run := func(cwd, tref, o string, env []string) core.Result {
		return core.Run(core.Cmd{Dir: cwd, Env: env, Args: append([]string{c.Gowrap()}, k.args(tref, o)...)})
	}
	first := run(dir, k.tref, k.out, env("/a"))
	if first.Code != 0 {
		c.Finding("refused/"+id, cmdline+"\nis refused: "+core.Clip(first.Err, 800), rep())
		return
	}
	want := read()
	c.Eval(cmdline)
	c.Sample(map[string]any{"request": k.args(k.tref, k.out), "header": core.Clip(want, 500)})
	same := func(how string) bool {
		c.Count("repeated_runs", 1)
		if got := read(); got != want {
			c.Finding("differs/"+how+"/"+id, fmt.Sprintf("%s\nwrites other bytes %s:\n%s", cmdline, how, firstDiff(want, got)), rep("first.go", want, "then.go", got))
			return false
		}
		return true
	}
	again := func(how, cwd, tref, o string, env []string) bool {
		if r := run(cwd, tref, o, env); r.Code != 0 {
			c.Finding("refused/"+how+"/"+id, fmt.Sprintf("%s\nis refused %s: %s", cmdline, how, core.Clip(r.Err, 800)), rep("first.go", want))
			return false
		}
		return same(how)
	}
	// over its own output, from scratch, and from scratch again with another home
	if !again("over the previous output", dir, k.tref, k.out, env("/a")) {
		return
	}
	for n := 0; n < 2; n++ {
		core.Must(os.Remove(out), "remove")
		if !again("the next time", dir, k.tref, k.out, env("/b")) {
			return
		}
	}
	// over what an earlier version left
	stale := strings.Replace(want, "\n)\n", "\n)\n\ntype zzStale struct{}\n", 1)
	core.Must(os.WriteFile(out, []byte(stale), 0o644), "write")
	if !again("over an older output", dir, k.tref, k.out, env("/a")) {
		return
	}
	// from elsewhere in the module
	cwd := filepath.Dir(out)
	tref, o := k.tref, filepath.Base(out)
	if k.tmpl != "" && !filepath.IsAbs(tref) {
		rel, err := filepath.Rel(cwd, filepath.Join(dir, k.tmpl))
		core.Must(err, "rel")
		if strings.HasPrefix(tref, "file://") {
			rel = "file://" + rel
		}
		tref = rel
	}
	if !again("when run in the directory of the output", cwd, tref, o, env("/a")) {
		return
	}
	if !again("with an absolute output path", dir, k.tref, out, env("/a")) {
		return
	}
	if !throughLinks(c, dir, k, again) {
		return
	}
	// the header
	lines := strings.SplitN(want, "\n\npackage ", 2)
	marked := false
	for _, l := range strings.Split(lines[0], "\n") {
		marked = marked || genLine.MatchString(l)
	}
	if !marked || len(lines) != 2 {
		c.Finding("header/"+id, cmdline+"\ndoes not mark the file as generated before the package clause:\n"+core.Clip(want, 600), rep("first.go", want))
	}
	var directives []string
	for _, l := range strings.Split(want, "\n") {
		if strings.HasPrefix(l, "//go:generate") {
			directives = append(directives, l)
		}
	}
	if k.noGen {
		if len(directives) > 0 {
			c.Finding("directive/"+id, cmdline+"\nwrites a go:generate directive: "+directives[0], rep("first.go", want))
		}
		c.Count("without_directive", 1)
		return
	}
	if len(directives) != 1 || !strings.HasPrefix(directives[0], "//go:generate gowrap gen ") {
		c.Finding("directive/"+id, fmt.Sprintf("%s\nwrites the directives %q", cmdline, directives), rep("first.go", want))
		return
	}
	// go generate, over a stale body
	goenv := env("/a")
	for i, e := range goenv {
		if strings.HasPrefix(e, "PATH=") {
			goenv[i] = "PATH=" + gw + ":" + e[5:]
		}
	}
	if strings.ContainsAny(filepath.Base(out)[:1], "_.-") { // the go command ignores these files even when they are named
		return
	}
	for n, stale := range []string{want, stale} {
		core.Must(os.WriteFile(out, []byte(stale), 0o644), "write")
		before := snapshot(cwd)
		base := filepath.Base(out)
		what := "."
		if strings.Contains(base, "_windows") || strings.Contains(base, "_arm64") {
			what = base // not in the package
		}
		r := core.Run(core.Cmd{Dir: cwd, Env: goenv, Args: []string{"go", "generate", "-run", "zz| -i " + regexp.QuoteMeta(k.i) + " .*" + regexp.QuoteMeta(strings.ReplaceAll(firstWord(base), "\"", "")), what}})
		if what != "." {
			c.Count("files_outside_the_package", 1)
		}
		got := read()
		if r.Code != 0 || got != want {
			c.Finding("gogenerate/"+id, fmt.Sprintf("%s\ngo generate in its package exits with %d\n%s%s\nthe directive is\n%s\nand the file differs:\n%s", cmdline, r.Code, core.Clip(r.Out, 500), core.Clip(r.Err, 1000), directives[0], firstDiff(want, got)), rep("first.go", want, "then.go", got))
			return
		}
		ch := changes(before, snapshot(cwd))
		if n == 0 && len(ch) > 0 || n == 1 && len(ch) != 1 {
			c.Finding("gogenerate-touches/"+id, fmt.Sprintf("%s\ngo generate changes %v", cmdline, ch), rep("first.go", want))
			return
		}
		c.Count("go_generate_round_trips", 1)
	}
}

// throughLinks runs the request where symbolic links lead to.
func throughLinks(c *core.Ctx, dir string, k determCase, again func(how, cwd, tref, o string, env []string) bool) bool {
	tag := strings.ReplaceAll(k.dir, "/", "_") + k.i
	link := func(name, to string) string {
		l := filepath.Join(filepath.Dir(dir), "links", name)
		core.Must(os.MkdirAll(filepath.Dir(l), 0o755), "mkdir")
		_ = os.Remove(l)
		core.Must(os.Symlink(to, l), "link")
		return l
	}
	env := func(pwd string) []string {
		return core.Env(core.GoRoot, "HTTPS_PROXY=http://127.0.0.1:1", "HTTP_PROXY=http://127.0.0.1:1", "PWD="+pwd)
	}
	abs := k.tref
	if k.tmpl != "" {
		abs = filepath.Join(dir, k.tmpl)
	}
	c.Count("through_links", 1)
	l := link("deep/er/"+tag, dir)
	if !again("in a link to the module's directory", l, k.tref, k.out, env(l)) ||
		!again("in a link to the module's directory with an absolute template path", l, abs, k.out, env(l)) {
		return false
	}
	if k.tmpl != "" && !again("in the module's directory with a template path through a link", dir, filepath.Join(l, k.tmpl), k.out, env(dir)) {
		return false
	}
	cwd := filepath.Join(dir, filepath.Dir(k.out))
	// an output directory that is a link of another depth
	if k.p != "probe/"+filepath.Dir(k.out) {
		rel := "links_" + tag + "/deep/" + filepath.Base(cwd)
		core.Must(os.MkdirAll(filepath.Join(dir, filepath.Dir(rel)), 0o755), "mkdir")
		_ = os.Remove(filepath.Join(dir, rel))
		core.Must(os.Symlink(cwd, filepath.Join(dir, rel)), "link")
		return again("with an output path through a link", dir, k.tref, rel+"/"+filepath.Base(k.out), env(dir))
	}
	return true
}

// firstWord is the start of a name that no quoting changes.
func firstWord(s string) string {
	for i, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9') {
			return s[:i]
		}
	}
	return s
}

// firstDiff shows where two texts differ.
func firstDiff(a, b string) string {
	al, bl := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(al) || i < len(bl); i++ {
		x, y := "(end)", "(end)"
		if i < len(al) {
			x = al[i]
		}
		if i < len(bl) {
			y = bl[i]
		}
		if x != y {
			return fmt.Sprintf("line %d\n  was %q\n  is  %q", i+1, x, y)
		}
	}
	return "no difference"
}

func sortedKeys[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
