package checks

import (
	"fmt"
	"go/token"
	"math/rand"
	"path/filepath"
	"slices"
	"strings"

	"verifharness/internal/core"
	"verifharness/internal/progen"
)

var refuseFiles = map[string]string{
	"go.mod": "module bad\n\ngo 1.24\n",
	"src/src.go": `package src

import "bad/dep"

type Good interface {
	F(x int, s S) (string, error)
}
type GoodExtra interface {
	Good
	G(a Alias, l [N]int)
}
type good interface{ F() }
type Empty interface{}
type EmptyAny = any
type EmptyEmb interface {
	Empty
	any
}
type Num interface{ ~int | ~string }
type Cmp interface{ comparable }
type S struct{ A int }
type Fn func()
type Str string
type PtrToIface *Good
type AliasStruct = S
type AliasDepStruct = dep.T
type RedeclStruct dep.T

const N = 3
const n = 3
const Const = 1

var Var Good

func Func() {
	type InFunc interface{ F() }
	var _ InFunc
	type S struct{}
}

type Alias = hiddenT
type hiddenT struct{}
type hiddenNum interface{ ~int }
type hiddenIface interface{ F(x hiddenT) }
type G[T any] struct{ V T }

type HiddenMethod interface {
	F()
	hidden()
}
type HiddenOnly interface{ hidden() }
type HiddenUnderscore interface{ _hidden() }
type HiddenLetter interface{ ünder() }
type HiddenType interface{ F(x hiddenT) }
type HiddenResult interface{ F() (int, *hiddenT, error) }
type HiddenVariadic interface{ F(x ...hiddenT) }
type HiddenDeep interface {
	F(map[string][]func(*hiddenT) (chan hiddenT, error))
}
type HiddenMapKey interface{ F(map[hiddenT]int) }
type HiddenField interface{ F(struct{ a int }) }
type HiddenConst interface{ F([n]int) }
type HiddenConstExpr interface{ F([(n + 1) * 2]int) }
type HiddenArg interface{ F(G[hiddenT]) }
type HiddenLit interface{ F(interface{ x() }) }
type HiddenEmbed interface {
	Good2()
	hiddenIface
}
type HiddenViaRedecl hiddenIface
type HiddenViaAlias = hiddenIface
type EmbDep interface {
	F()
	dep.Hidden
}
type HiddenConstraint[T hiddenNum] interface{ F(T) }
type HiddenConstraint2[T any, U G[hiddenT] | ~[]T] interface{ F(T) U }
`,
	"src/use.go":       "package src\n\nfunc use() (HiddenViaAlias, HiddenViaRedecl) { return nil, nil }\n",
	"dep/dep.go":       "package dep\n\ntype T struct{}\n\ntype Hidden interface{ hidden() }\n",
	"mainpkg/main.go":  "package main\n\ntype I interface{ F() }\n\nfunc main() {}\n",
	"broken/broken.go": "package broken\n\ntype I interface{ F() }\n\nfunc (\n",
	"broken2/a.go":     "package one\n\ntype I interface{ F() }\n",
	"broken2/b.go":     "package two\n\ntype I interface{ F() }\n",
	"nogo/readme.txt":  "nothing\n",
	"dst/dst.go":       "package dst\n\nconst X = 1\n",
	"ok.tmpl":          "type D{{.Interface.Generics.Types}} struct{}\n{{range $m := .Interface.Methods}}\nfunc (D{{$.Interface.Generics.Params}}) {{$m.Declaration}} { for {} }\n{{end}}\nfunc Z{{.Interface.Generics.Types}}() { var _ {{.Interface.Type}}{{.Interface.Generics.Params}} = D{{.Interface.Generics.Params}}{} }\n",
	"syntax.tmpl":      "package x\n{{range}}\n",
	"unclosed.tmpl":    "{{if true}} type T int\n",
	"unknown.tmpl":     "{{nope .}}\n",
	"field.tmpl":       "type T int\n{{.Nope}}\n",
	"fail.tmpl":        "type T int\n{{range .Interface.Methods}}\nvar {{.Name}} int\n{{end}}{{fail \"boom\"}}\n",
	"index.tmpl":       "type T int\n{{index .Interface.Methods 1 2}}\n",
	"sub.tmpl":         "type T int\n{{template \"none\"}}\n",
	"badcall.tmpl":     "type T int\n{{upFirst 1 2}}\n",
	"nilptr.tmpl":      "type T int\n{{(index .Interface.Methods \"F\").ReturnStruct 5}}\n",
	"notgo1.tmpl":      "func {\n",
	"notgo2.tmpl":      "this is not Go at all, 100%\n",
	"notgo3.tmpl":      "type T int\n\x00\x01\xff\xfe\n",
	"notgo4.tmpl":      "type T struct {\n{{range .Interface.Methods}}{{.Name}} int\n{{end}}",
	"notgo5.tmpl":      "var s = \"unterminated\n",
	"dirtmpl/x":        "x\n",
	"file":             "a file\n",
}

// outputs are the states of the output file of an invalid request
var outStates = []struct {
	name, out string
	files     map[string]string
}{
	{"missing directories", "new/deep/out.go", nil},
	{"missing file in a package", "dst/new.go", nil},
	{"existing file", "dst/old.go", map[string]string{"dst/old.go": "package dst\n\n// precious\n\nconst Y = 2\n"}},
	{"previous decorator", "gen/out.go", map[string]string{"gen/out.go": "// Code generated by gowrap. DO NOT EDIT.\npackage gen\n\ntype D struct{}\n"}},
	{"existing empty directory", "emptydir/out.go", map[string]string{"emptydir/.keep": ""}},
}

func init() {
	reg("C05", func(c *core.Ctx) {
		c.Rule = "a case is one request against one state of the output; non-trivial: distinct request and state"
		c.Assume = []string{"remote templates are requested from a dead proxy", "the tree is compared by content, size, mode and names", "the failures of the final write itself are outside"}
		type req struct {
			name  string
			args  []string // without -o
			valid bool
		}
		var reqs []req
		iface := func(name string, valid bool) {
			reqs = append(reqs, req{"interface " + name, []string{"-p", "./src", "-i", name, "-t", "ok.tmpl"}, valid})
		}
		for _, n := range []string{"Good", "GoodExtra"} {
			iface(n, true)
		}
		for _, n := range []string{"Absent", "good2", "Good.F", "src.Good", "*Good", "Good ", "", "InFunc", "Empty", "EmptyAny", "EmptyEmb", "Num", "Cmp", "S", "Fn", "Str", "PtrToIface", "AliasStruct", "AliasDepStruct", "RedeclStruct",
			"Const", "Var", "Func", "hiddenT", "G", "good", "HiddenMethod", "HiddenOnly", "HiddenUnderscore", "HiddenLetter", "HiddenType", "HiddenResult", "HiddenVariadic", "HiddenDeep", "HiddenMapKey", "HiddenField", "HiddenConst", "HiddenConstExpr", "HiddenArg", "HiddenLit",
			"HiddenEmbed", "HiddenViaRedecl", "HiddenViaAlias", "EmbDep", "HiddenConstraint", "HiddenConstraint2", "hiddenIface"} {
			iface(n, false)
		}
		for _, t := range []string{"syntax.tmpl", "unclosed.tmpl", "unknown.tmpl", "field.tmpl", "fail.tmpl", "index.tmpl", "sub.tmpl", "badcall.tmpl", "nilptr.tmpl", "notgo1.tmpl", "notgo2.tmpl", "notgo3.tmpl", "notgo4.tmpl", "notgo5.tmpl", "dirtmpl", "missing.tmpl", "./missing.tmpl",
			"https://127.0.0.1:1/t", "http://127.0.0.1:1/t", "file:///missing/t", "file://missing.tmpl", "retry", "https://", "https://%zz/"} {
			reqs = append(reqs, req{"template " + t, []string{"-p", "./src", "-i", "Good", "-t", t}, false})
		}
		for _, p := range []string{"./missing", "bad/missing", "example.com/missing", "./broken", "./broken2", "./nogo", "./mainpkg", "..", "/", "./src/..."} {
			i := "Good"
			if strings.Contains(p, "broken") || strings.Contains(p, "main") {
				i = "I"
			}
			if p == "./src/..." {
				i = "Absent"
			}
			reqs = append(reqs, req{"package " + p, []string{"-p", p, "-i", i, "-t", "ok.tmpl"}, false})
		}
		reqs = append(reqs, req{"no template", []string{"-p", "./src", "-i", "Good"}, false}, req{"no interface", []string{"-p", "./src", "-t", "ok.tmpl"}, false},
			req{"unknown flag", []string{"-p", "./src", "-i", "Good", "-t", "ok.tmpl", "-z"}, false})

		type cse struct {
			req
			state int
		}
		var cs []cse
		for _, q := range reqs {
			for s := range outStates {
				cs = append(cs, cse{q, s})
			}
		}
		c.Gowrap()
		core.Parallel(len(cs), func(i int) {
			q, st := cs[i].req, outStates[cs[i].state]
			dir := c.Dir(fmt.Sprintf("r%d", i))
			core.Write(dir, refuseFiles)
			core.Write(dir, st.files)
			if strings.HasPrefix(st.out, "src/") && !q.valid {
				return
			}
			checkRefusal(c, dir, q.name, append([]string{"gen", "-o", st.out}, q.args...), q.args, st.name, st.out, q.valid)
			removeAll(dir)
		})
		// the output cannot be written
		for i, o := range []string{"file/out.go", "file/x/out.go", "dst"} {
			dir := c.Dir(fmt.Sprintf("w%d", i))
			core.Write(dir, refuseFiles)
			checkRefusal(c, dir, "valid request", []string{"gen", "-p", "./src", "-i", "Good", "-t", "ok.tmpl", "-o", o}, nil, "unwritable "+o, o, false)
		}
		randomRefusals(c)
		if c.Violations() == 0 {
			c.Need("refused", 300)
			c.Need("controls", 8)
			c.Need("random_refused", 10)
			c.Need("random_accepted", 10)
		}
	})
}

func checkRefusal(c *core.Ctx, dir, name string, args, _ []string, state, out string, valid bool) {
	before := snapshot(dir)
	r := c.Gen(dir, args...)
	diff := changes(before, snapshot(dir))
	what := fmt.Sprintf("gowrap %s\nwith %s: exit %d\nstdout: %s\nstderr: %s\nthe tree: %v", strings.Join(args, " "), state, r.Code, core.Clip(r.Out, 300), core.Clip(r.Err, 600), diff)
	rep := map[string]string{"case.txt": what}
	id := strings.ReplaceAll(name+"/"+state, " ", "_")
	c.Eval(name + state)
	if valid {
		c.Count("controls", 1)
		want := 1
		for d := filepath.Dir(out); d != "."; d = filepath.Dir(d) {
			if before[d] == "" {
				want++
			}
		}
		if r.Code != 0 || len(diff) != want {
			c.Finding("control/"+id, "a valid request is not satisfied or does not write just the output:\n"+what, rep)
		}
		return
	}
	c.Count("refused", 1)
	c.Sample(map[string]any{"request": args, "output": state, "exit": r.Code, "stderr": core.Clip(r.Err, 200)})
	switch {
	case r.Timeout:
		c.Finding("hang/"+id, "gowrap does not end:\n"+what, rep)
	case crashed(r.Err):
		c.Finding("panic/"+id, "gowrap panics:\n"+what, rep)
	case r.Code == 0:
		c.Finding("accepted/"+id, "a request that cannot be satisfied is not refused:\n"+what, rep)
	case strings.TrimSpace(r.Err) == "":
		c.Finding("silent/"+id, "a refusal without a message:\n"+what, rep)
	}
	if len(diff) > 0 {
		c.Finding("touched/"+id, "a refused request changes the file system:\n"+what, rep)
	}
}

// randomRefusals decorates random interfaces that use unexported names in
// another package: go/types says whether that is possible.
func randomRefusals(c *core.Ctx) {
	dir := c.Dir("local")
	core.Write(dir, map[string]string{"go.mod": "module probe\n\ngo 1.24\n", "probe.tmpl": probeTemplate})
	var ps []*probed
	var srcs []string
	for i := 0; i < c.Pick(20, 100); i++ {
		r := rand.New(rand.NewSource(c.Seed*6007 + int64(i)))
		path := fmt.Sprintf("probe/p%d", i)
		m := progen.New(r, path, progen.Opts{Interfaces: 8, Local: true, AllLocal: true, Embeds: true, MaxMethods: 2, Simple: true})
		fs := map[string]string{}
		for f, b := range m.Files {
			if f != "go.mod" {
				fs[fmt.Sprintf("p%d/%s", i, f)] = b
			}
		}
		core.Write(dir, fs)
		srcs = append(srcs, path+"/src")
		for k, it := range m.Ifaces {
			ps = append(ps, &probed{Pkg: path + "/src", Name: it.Name, Where: "cross", Feats: it.Feats, Local: it.Local, Source: m.Files["src/iface0.go"] + "\n" + m.Files["src/iface1.go"],
				Out: fmt.Sprintf("p%d/dst_%d/out.go", i, k), OutPkg: fmt.Sprintf("probe/p%d/dst_%d", i, k)})
		}
	}
	src := core.Load(core.GoRoot, dir, srcs...)
	for _, s := range srcs {
		if e := src.Err(s); e != "" {
			core.Fail("a source package of the harness does not compile: %s: %s", s, e)
		}
	}
	before := snapshot(dir)
	runProbes(c, dir, ps)
	after := snapshot(dir)
	var pats []string
	for _, p := range ps {
		if p.Res.Code == 0 {
			pats = append(pats, p.OutPkg)
		}
	}
	mod := core.Load(core.GoRoot, dir, append(pats, srcs...)...)
	assign(mod, ps)
	want := map[string]bool{}
	for _, p := range ps {
		_, it, err := lookup(src, p)
		core.Must(err, "types of the source")
		can := nameable(it) && token.IsExported(p.Name)
		c.Eval("random" + p.key() + fmt.Sprint(can) + it.String())
		switch {
		case crashed(p.Res.Err):
			c.Finding("panic/"+p.key(), "gowrap panics:\n"+core.Clip(p.Res.Err, 1500), replay(p))
		case can && p.Res.Code != 0 && slices.Contains(p.Feats, "unexported-length"):
			// the type has a name there, but not the one the source gives it
			c.Count("unexported_lengths", 1)
		case can && p.Res.Code != 0:
			c.Finding("refused/"+p.key(), fmt.Sprintf("%s can be implemented in another package and is refused (%v):\n%s", p.Name, p.Feats, core.Clip(p.Res.Err, 800)), replay(p))
		case !can && p.Res.Code == 0:
			c.Finding("accepted/"+p.key(), fmt.Sprintf("%s cannot be implemented in another package and is not refused (%v)", p.Name, p.Feats), replay(p))
		case can && p.Compile != "":
			c.Finding("compile/"+p.key(), fmt.Sprintf("the output for %s does not compile (%v):\n%s", p.Name, p.Feats, core.Clip(p.Compile, 800)), replay(p))
		case can:
			c.Count("random_accepted", 1)
		default:
			c.Count("random_refused", 1)
		}
		if p.Res.Code == 0 {
			want[p.Out] = true
			want[filepath.Dir(p.Out)] = true
		}
	}
	for _, d := range changes(before, after) {
		f := strings.Fields(d)
		if f[0] != "created" || !want[f[1]] {
			c.Finding("touched/random/"+f[1], "refused requests change the file system: "+d, nil)
		}
	}
}
