package checks

import (
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"verifharness/internal/core"
)

// argvFiles is the directory every argument list is tried in.
var argvFiles = map[string]string{
	"go.mod":            "module m\n\ngo 1.24\n",
	"src/src.go":        "package src\n\ntype I interface {\n\tF(x int) error\n}\n\ntype T struct{}\n\ntype Empty interface{}\n\ntype priv interface{ F() }\n\ntype Own interface{ f() }\n",
	"root.go":           "package root\n\ntype I interface{ G() }\n",
	"broken/b.go":       "package broken\n\ntype I interface {\n",
	"prog/p.go":         "package main\n\ntype I interface{ F() }\n\nfunc main() {}\n",
	"t.tmpl":            "type X{{.Interface.Name}} struct{}\n",
	"vars.tmpl":         "{{range $k, $v := .Vars}}// {{printf \"%q %v\" $k $v | replace \"\\n\" \" \"}}\n{{end}}",
	"empty.tmpl":        "",
	"parse.tmpl":        "{{ if }}",
	"unknown.tmpl":      "{{ nofunc 1 }}",
	"exec.tmpl":         "{{ .Interface.Nope }}",
	"fail.tmpl":         "{{ fail \"%d%s\" }}",
	"funcpanic.tmpl":    "{{ index .Interface.Methods 5 }}{{ repeat -1 \"x\" }}",
	"recursion.tmpl":    "{{define \"x\"}}{{template \"x\" .}}{{end}}{{template \"x\" .}}",
	"notgo.tmpl":        "this %d is not Go {{.Interface.Name}}",
	"binary.tmpl":       "\x00\x01\xff",
	"file":              "a regular file",
	"dir/keep":          "x",
	"nil.tmpl":          "{{ (index .Interface.Methods \"F\").Call.X }}",
	"nomap.tmpl":        "{{ (index .Interface.Methods \"Nope\").Declaration }}",
	"out/existing.go":   "package out\n",
	"broken/sub/sub.go": "package sub\n",
}

// the values of gen's flags and whether gowrap can do what they ask for:
// y it can, n it can not, u is not judged
var (
	argPkgs = []arg{{"./src", 'y'}, {"m/src", 'y'}, {"", 'y'}, {".", 'y'}, {"m", 'y'}, {"./nothere", 'n'}, {"m/none%d", 'n'}, {"./broken", 'n'}, {"./dir", 'n'}, {"%s%d", 'n'}, {"example.com/%n/x", 'n'}, {"./...", 'u'}, {"-", 'u'}, {"file=src/src.go", 'u'}, {"all", 'u'}, {"\xff", 'n'}, {"../..", 'u'}, {"./src/", 'y'}, {"fmt", 'n'}, {"C", 'u'}, {"unsafe", 'n'}, {"./prog", 'n'}, {"a b", 'n'}, {"builtin", 'u'}, {"@latest", 'u'}, {"m/src@v1", 'n'}}
	argIfcs = []arg{{"I", 'y'}, {"I", 'y'}, {"I", 'y'}, {"None%d", 'n'}, {"T", 'n'}, {"Empty", 'n'}, {"priv", 'n'}, {"I.I", 'n'}, {"%s", 'n'}, {"interface{}", 'n'}, {" I", 'n'}, {"\xff", 'n'}, {"Own", 'n'}, {"-I", 'n'}, {"init", 'n'}, {"I[int]", 'n'}}
	argTmps = []arg{{"t.tmpl", 'y'}, {"t.tmpl", 'y'}, {"./t.tmpl", 'y'}, {"vars.tmpl", 'y'}, {"empty.tmpl", 'y'}, {"file://t.tmpl", 'y'}, {"parse.tmpl", 'n'}, {"unknown.tmpl", 'n'}, {"exec.tmpl", 'n'}, {"fail.tmpl", 'n'}, {"funcpanic.tmpl", 'n'}, {"notgo.tmpl", 'n'}, {"binary.tmpl", 'n'}, {"nil.tmpl", 'n'}, {"nomap.tmpl", 'u'}, {"missing%d.tmpl", 'n'}, {"https://host.invalid/%d", 'n'}, {"http://%", 'n'}, {"https://", 'n'}, {"http://[::1", 'n'}, {"file://", 'n'}, {"file://nope%d", 'n'}, {"dir", 'n'}, {".", 'n'}, {"file/x", 'n'}, {"%!d(MISSING)", 'n'}, {"\xff", 'n'}, {"log", 'n'}, {"//", 'n'}}
	argOuts = []arg{{"out/o.go", 'y'}, {"out/o.go", 'y'}, {"new/dir/o.go", 'y'}, {"out/existing.go", 'y'}, {"./out/x_test.go", 'y'}, {"file/x.go", 'n'}, {"/dev/null/x.go", 'n'}, {"dir", 'u'}, {"dir/", 'u'}, {"out/%d.go", 'y'}, {"out/noext", 'y'}, {"/", 'n'}, {".", 'n'}, {"out/" + strings.Repeat("x", 300), 'n'}, {"out/a b.go", 'y'}, {"out/\xff.go", 'y'}, {"/proc/nope/x.go", 'n'}}
	argVars = []string{"a=b", "flag", "", "=", "=x", "a=", "a=b=c", "%d=%s", "x=\xff", "a b=c d", "q=\"'`", "n=line1\nline2", "$x=$y", "-v", "日=本"}
	argLocs = []string{"", "m", "m/,n", "%d", "\xff", "a b", "\"", "-l"}
	hostile = []string{"", "-", "--", "---x", "-=", "-h", "--help", "-help", "-version", "help", "gen", "template", "list", "copy", "%d%s%n", "-%s", "--%d=x", "-x=%d", "日本", "\n", "-v", "-g", "-g=1", "-g=%s", "--g", "-g=false", "-o", "-o=", "-i", "-\xff", "\xff", strings.Repeat("x", 9000), "-" + strings.Repeat("y", 500), "a=b", "=", "-=x", "generate", "GEN", "Gen", "LIST", "Copy", "list ", " copy", "Template", "HELP", "gen ", "-gen", "t.tmpl", "'", "\"", "$HOME", "`id`", "*", "-1", "0"}
)

type arg struct {
	v  string
	ok byte
}

func pick(r *rand.Rand, as []arg) string {
	if r.Intn(2) == 0 {
		return as[0].v
	}
	return as[r.Intn(len(as))].v
}

func status(as []arg, v string) byte {
	for _, a := range as {
		if a.v == v {
			return a.ok
		}
	}
	return 'u'
}

type stringsValue []string

func (s *stringsValue) String() string     { return "" }
func (s *stringsValue) Set(v string) error { *s = append(*s, v); return nil }

// verdict is what an argument list may end with.
type verdict struct {
	codes map[int]bool
	class string
	text  string // what stderr has to repeat
}

func codes(cs ...int) map[int]bool {
	m := map[int]bool{}
	for _, c := range cs {
		m[c] = true
	}
	return m
}

var undefined = regexp.MustCompile(`(?s)not defined: (.*)$`)

// judgeArgs classifies an argument list.
func judgeArgs(args []string) verdict {
	usage := func(class, text string) verdict { return verdict{codes(2), class, text} }
	if len(args) == 0 {
		return usage("nothing", "")
	}
	top := flag.NewFlagSet("", flag.ContinueOnError)
	top.SetOutput(io.Discard)
	top.Usage = func() {}
	if err := top.Parse(args); err != nil {
		t := ""
		if m := undefined.FindStringSubmatch(err.Error()); m != nil {
			t = m[1]
		}
		return usage("global flag", t)
	}
	args = top.Args()
	if len(args) == 0 {
		return usage("no command", "")
	}
	switch args[0] {
	case "help":
		switch {
		case len(args) > 2:
			return usage("help of too much", "")
		case len(args) == 2 && args[1] != "gen" && args[1] != "template":
			return usage("help of the unknown", args[1])
		}
		return verdict{codes(0), strings.Join(args, " "), ""}
	case "template":
		if len(args) < 2 {
			return usage("template alone", "")
		}
		rest := args[2:]
		switch args[1] {
		case "list":
			if len(rest) > 0 {
				return verdict{codes(1, 2), "template list with more", ""}
			}
			return verdict{codes(1), "template list", ""}
		case "copy":
			if len(rest) < 2 {
				return usage("template copy of less", "")
			}
			v := verdict{codes(1), "template copy", ""}
			if strings.HasPrefix(rest[0], "file://") {
				v = verdict{codes(0, 1), "template copy of a file", ""}
				if s := status(argTmps, rest[0]); s == 'n' {
					v.codes = codes(1)
				} else if s == 'y' && rest[1] == "copied" {
					v.codes = codes(0)
				}
			}
			if len(rest) > 2 {
				v.codes[2] = true
				v.class += " with more"
			}
			return v
		}
		return usage("template unknown", "")
	case "gen":
		fs := flag.NewFlagSet("", flag.ContinueOnError)
		fs.SetOutput(io.Discard)
		fs.Usage = func() {}
		var p, i, t, o, l string
		var g bool
		var v stringsValue
		fs.BoolVar(&g, "g", false, "")
		fs.StringVar(&o, "o", "", "")
		fs.StringVar(&i, "i", "", "")
		fs.StringVar(&p, "p", "", "")
		fs.StringVar(&t, "t", "", "")
		fs.StringVar(&l, "l", "", "")
		fs.Var(&v, "v", "")
		if err := fs.Parse(args[1:]); err != nil {
			tx := ""
			if m := undefined.FindStringSubmatch(err.Error()); m != nil {
				tx = m[1]
			}
			return usage("gen flag", tx)
		}
		if o == "" || i == "" || t == "" {
			return usage("gen without a flag it needs", "")
		}
		vd := verdict{codes(0, 1), "gen", ""}
		s := string([]byte{status(argPkgs, p), status(argIfcs, i), status(argTmps, t), status(argOuts, o)})
		switch {
		case s[0] == 'y' && s[1] == 'n' && s[2] != 'u' && strings.TrimSpace(i) == i:
			vd.text = ""
			if s[2] == 'y' && s[3] == 'y' {
				vd.text = i
				if i == "T" || i == "Empty" || i == "priv" || i == "Own" || !strings.Contains(p, "src") {
					vd.text = ""
				}
			}
			vd.codes, vd.class = codes(1), "gen that can not be done"
		case strings.Contains(s, "n"):
			vd.codes, vd.class = codes(1), "gen that can not be done"
		case !strings.Contains(s, "u"):
			vd.codes, vd.class = codes(0), "gen that can be done"
		}
		if o == "dir" || o == "dir/" || !strings.Contains(s, "n") && strings.Contains(s, "u") {
			vd.class = "gen that is not judged"
		}
		if fs.NArg() > 0 {
			vd.codes[2] = true
			vd.class += " with more"
		}
		return vd
	}
	return usage("unknown command", args[0])
}

func argvCase(r *rand.Rand) []string {
	var as []string
	hs := func() string { return hostile[r.Intn(len(hostile))] }
	switch k := r.Intn(20); {
	case k < 11:
		as = []string{"gen"}
		fl := [][2]string{{"p", pick(r, argPkgs)}, {"i", pick(r, argIfcs)}, {"t", pick(r, argTmps)}, {"o", pick(r, argOuts)}}
		if r.Intn(2) == 0 { // at most one of them is odd
			j := r.Intn(4)
			for x, l := range [][]arg{argPkgs, argIfcs, argTmps, argOuts} {
				if x != j {
					fl[x][1] = l[r.Intn(2)].v
				}
			}
		}
		if r.Intn(7) == 0 {
			j := r.Intn(4)
			fl = append(fl[:j], fl[j+1:]...)
		}
		for r.Intn(2) == 0 {
			fl = append(fl, [2]string{"v", argVars[r.Intn(len(argVars))]})
		}
		if r.Intn(3) == 0 {
			fl = append(fl, [2]string{"l", argLocs[r.Intn(len(argLocs))]})
		}
		if r.Intn(3) == 0 {
			fl = append(fl, [2]string{"g", ""})
		}
		if r.Intn(9) == 0 {
			fl = append(fl, fl[r.Intn(len(fl))])
		}
		r.Shuffle(len(fl), func(i, j int) { fl[i], fl[j] = fl[j], fl[i] })
		for _, f := range fl {
			d := []string{"-", "-", "--"}[r.Intn(3)]
			switch {
			case f[0] == "g":
				as = append(as, d+"g"+[]string{"", "", "=true", "=0"}[r.Intn(4)])
			case r.Intn(3) == 0:
				as = append(as, d+f[0]+"="+f[1])
			default:
				as = append(as, d+f[0], f[1])
			}
		}
		if r.Intn(8) == 0 {
			j := 1 + r.Intn(len(as))
			as = append(as[:j:j], append([]string{hs()}, as[j:]...)...)
		}
		if r.Intn(10) == 0 {
			as = append(as, hs())
		}
	case k < 14:
		as = []string{"template"}
		if r.Intn(8) > 0 {
			as = append(as, []string{"list", "copy", "copy", "copy", hs(), []string{"LIST", "List", "COPY", "Copy", "list\t", "copies", "lis"}[r.Intn(7)]}[r.Intn(6)])
		}
		if as[len(as)-1] == "copy" {
			for n := r.Intn(4); n > 0; n-- {
				if len(as) == 2 {
					as = append(as, pick(r, argTmps))
				} else {
					as = append(as, []string{"copied", "dir", "/dev/null/x", "no/dir/x", "", "%d"}[r.Intn(6)])
				}
			}
		} else if r.Intn(3) == 0 {
			as = append(as, hs())
		}
	case k < 16:
		as = []string{"help"}
		for r.Intn(2) == 0 {
			as = append(as, []string{"gen", "template", hs(), "help"}[r.Intn(4)])
		}
	default:
		for n := r.Intn(5); n > 0; n-- {
			as = append(as, hs())
		}
	}
	if r.Intn(12) == 0 {
		as = append([]string{hs()}, as...)
	}
	return as
}

var verbErr = regexp.MustCompile(`%!.?\(|\(MISSING\)|\(EXTRA |%!\(NOVERB`)

func init() {
	reg("C11", func(c *core.Ctx) {
		c.Rule = "a case is one argument list and state of the environment, classified by a model of the command line; non-trivial: distinct lists"
		c.Assume = []string{"surplus arguments after a complete command may be ignored or refused", "the network is unreachable"}
		root := c.Dir("a")
		gw := c.Gowrap()
		n := c.Pick(2500, 20000)
		core.Parallel(n, func(i int) {
			r := rand.New(rand.NewSource(c.Seed*24593 + int64(i)))
			as := argvCase(r)
			v := judgeArgs(as)
			dir := filepath.Join(root, fmt.Sprint(i))
			core.Write(dir, argvFiles)
			env := core.Env(core.GoRoot, "HTTPS_PROXY=http://127.0.0.1:1", "HTTP_PROXY=http://127.0.0.1:1", "GIT_CEILING_DIRECTORIES="+root)
			res := core.Run(core.Cmd{Dir: dir, Env: env, Args: append([]string{gw}, as...)})
			removeAll(dir)
			what := fmt.Sprintf("gowrap %s", clipArgs(as))
			rep := map[string]string{"args.txt": fmt.Sprintf("%q\nclass %s", as, v.class), "stdout.txt": res.Out, "stderr.txt": res.Err}
			id := fmt.Sprintf("%s/%s", v.class, core.Clip(strings.Join(as, " "), 120))
			bad := func(kind, format string, a ...any) {
				c.Finding(kind+"/"+id, what+fmt.Sprintf(" ("+v.class+"): ")+fmt.Sprintf(format, a...), rep)
			}
			switch {
			case crashed(res.Err):
				bad("panic", "panics:\n%s", core.Clip(res.Err, 800))
			case res.Timeout:
				bad("hang", "does not end")
			case !v.codes[res.Code]:
				bad("status", "exit status %d, want %v\n%s", res.Code, v.codes, core.Clip(res.Err, 500))
			case res.Code == 2 && !strings.Contains(res.Err, "gowrap help"):
				bad("pointer", "a usage error does not point to the help: %s", core.Clip(res.Err, 300))
			case res.Code != 0 && strings.TrimSpace(res.Err) == "":
				bad("silent", "fails without a message")
			case res.Code != 0 && verbErr.MatchString(res.Err) && !verbErr.MatchString(strings.Join(as, " ")):
				bad("verbatim", "the message is mangled: %s", core.Clip(res.Err, 500))
			case v.text != "" && plain(v.text) && !strings.Contains(res.Err, v.text):
				bad("verbatim", "the message does not have %q as it was given: %s", v.text, core.Clip(res.Err, 500))
			case res.Code != 0 && strings.Contains(v.class, "gen") && strings.Contains(res.Out, "package"):
				bad("output", "fails but prints code")
			}
			if res.Code == 0 && strings.HasPrefix(v.class, "help") {
				if why := helpComplete(v.class, res.Out); why != "" {
					bad("help", "%s:\n%s", why, res.Out)
				}
			}
			c.Count("class "+v.class, 1)
			c.Count(fmt.Sprintf("exit_%d", res.Code), 1)
			if v.text != "" {
				c.Count("texts_repeated", 1)
			}
			c.Eval(strings.Join(as, "\x00"))
			c.Sample(map[string]any{"args": clipArgs(as), "class": v.class, "exit": res.Code})
		})
		// every error ends in a message under odd circumstances too
		odd := c.Dir("odd")
		core.Write(odd, argvFiles)
		gen := gw + " gen -p ./src -i I -t t.tmpl -o out/o.go"
		for _, o := range []struct {
			name, sh string
			env      []string
			want     map[int]bool
		}{
			{"no-go-command", gen, []string{"PATH=/nonexistent"}, codes(1)},
			{"no-home", "unset HOME GOPATH GOCACHE; " + gen, nil, codes(0, 1)},
			{"bad-goflags", gen, []string{"GOFLAGS=-mod=bogus"}, codes(1)},
			{"unknown-goflags", gen, []string{"GOFLAGS=-nope"}, codes(1)},
			{"bad-goos", gen, []string{"GOOS=nope"}, codes(0, 1)},
			{"closed-stdout", gen + " >&-", nil, codes(0)},
			{"closed-stdin", gen + " <&-", nil, codes(0)},
			{"closed-stderr", gw + " gen 2>&-", nil, codes(1, 2)},
			{"full-stderr", gw + " gen 2>/dev/full", nil, codes(1, 2)},
			{"full-stdout-help", gw + " help >/dev/full", nil, codes(1, 2)},
			{"full-stdout-help-gen", gw + " help gen >/dev/full", nil, codes(0, 1, 2)},
			{"removed-cwd", "mkdir gone && cd gone && rmdir ../gone && " + gen, nil, codes(1)},
			{"proxy-nonsense", gw + " template list", []string{"HTTPS_PROXY=%%%"}, codes(1)},
			{"two-modules", gen, []string{"GO111MODULE=off"}, codes(0, 1)},
			{"workspace-missing", gen, []string{"GOWORK=/nonexistent/go.work"}, codes(1)},
			{"no-git", gw + " gen -p ./src -i I -t file://nope -o out/o.go", []string{"PATH=" + core.GoRoot + "/bin"}, codes(1)},
		} {
			env := core.Env(core.GoRoot, append([]string{"HTTPS_PROXY=http://127.0.0.1:1"}, o.env...)...)
			res := core.Run(core.Cmd{Dir: odd, Env: env, Args: []string{"/bin/sh", "-c", o.sh}})
			if crashed(res.Err) {
				c.Finding("panic/"+o.name, o.sh+" panics ("+o.name+"):\n"+core.Clip(res.Err, 800), nil)
			} else if !o.want[res.Code] {
				c.Finding("status/"+o.name, fmt.Sprintf("%s (%s) ends with status %d, want %v: %s", o.sh, o.name, res.Code, o.want, core.Clip(res.Err, 400)), nil)
			} else if res.Code != 0 && res.Err == "" && !strings.Contains(o.name, "stderr") {
				c.Finding("silent/"+o.name, o.sh+" fails without a message ("+o.name+")", nil)
			}
			c.Count("odd_circumstances", 1)
			c.Eval("odd" + o.name)
			_ = os.Remove(filepath.Join(odd, "out/o.go"))
		}
		if c.Violations() == 0 {
			c.Need("exit_0", n/20)
			c.Need("exit_1", n/20)
			c.Need("exit_2", n/20)
			c.Need("class help", 1)
			c.Need("class help gen", 1)
			c.Need("class help template", 1)
			c.Need("class gen that can be done", n/50)
			c.Need("texts_repeated", n/50)
		}
	})
}

// plain tells whether text is printed the same with and without quotes.
func plain(s string) bool {
	q := fmt.Sprintf("%q", s)
	return q[1:len(q)-1] == s && strings.TrimSpace(s) != ""
}

func clipArgs(as []string) string {
	var out []string
	for _, a := range as {
		out = append(out, fmt.Sprintf("%q", core.Clip(a, 80)))
	}
	return strings.Join(out, " ")
}

// helpComplete tells what is missing in a help message.
func helpComplete(class, out string) string {
	switch class {
	case "help":
		for _, w := range []string{"gen", "template"} {
			if !regexp.MustCompile(`(?m)^\s+` + w + `\b`).MatchString(out) {
				return "help does not list " + w
			}
		}
	case "help gen":
		for _, w := range []string{"g", "i", "l", "o", "p", "t", "v"} {
			if !regexp.MustCompile(`(?m)^\s+-` + w + `\b`).MatchString(out) {
				return "help gen does not describe -" + w
			}
		}
	case "help template":
		for _, w := range []string{"list", "copy"} {
			if !strings.Contains(out, w) {
				return "help template does not describe " + w
			}
		}
	}
	return ""
}
