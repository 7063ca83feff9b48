package checks

import (
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verifharness/internal/core"
)

// impPkg is a package sources and templates import.
type impPkg struct{ path, name, typ, use string }

var impPkgs = []impPkg{
	{"context", "context", "Context", "context.Background()"}, {"time", "time", "Duration", "time.Now()"}, {"io", "io", "Reader", "io.EOF"},
	{"net/url", "url", "URL", "url.Values{}"}, {"net/http", "http", "Header", "http.Header{}"}, {"bytes", "bytes", "Buffer", "bytes.Buffer{}"},
	{"strings", "strings", "Builder", "strings.ToUpper(\"\")"}, {"text/template", "template", "Template", "template.New(\"\")"}, {"html/template", "template", "HTML", "template.HTML(\"\")"},
	{"crypto/rand", "rand", "", "rand.Reader"}, {"math/rand", "rand", "Rand", "rand.Int()"}, {"math/rand/v2", "rand", "PCG", "rand.Int()"}, {"fmt", "fmt", "Stringer", "fmt.Sprint()"},
	{"errors", "errors", "", "errors.New(\"\")"}, {"sync", "sync", "Locker", "sync.NewCond(nil)"}, {"os", "os", "FileMode", "os.Args"}, {"go/ast", "ast", "Node", "ast.NewIdent(\"\")"},
	{"imp/a", "a", "T", "a.T{}"}, {"imp/a/deep", "deep", "T", "deep.T{}"}, {"imp/odd-name", "oddpkg", "T", "oddpkg.T{}"}, {"imp/internal/hid", "hid", "T", "hid.T{}"}, {"imp/b/a", "a", "T", "a.T{}"},
	{"imp/go-yaml", "yaml", "T", "yaml.T{}"}, {"example.com/third", "third", "T", "third.T{}"}, {"example.com/third/v2", "third", "T", "third.T{}"}, {"example.com/third/sub", "sub", "T", "sub.T{}"},
	{"example.com/third.v3", "third", "T", "third.T{}"}, {"impossible", "impossible", "T", "impossible.T{}"},
}

var impFiles = map[string]string{
	"go.mod":              "module imp\n\ngo 1.24\n\nrequire (\n\texample.com/third v0.0.0\n\texample.com/third/v2 v2.0.0\n\texample.com/third.v3 v0.0.0\n\timpossible v0.0.0\n)\n\nreplace (\n\texample.com/third => ./mods/third\n\texample.com/third/v2 => ./mods/third2\n\texample.com/third.v3 => ./mods/third3\n\timpossible => ./mods/imposs\n)\n",
	"a/a.go":              "package a\n\ntype T struct{ A int }\n",
	"a/deep/d.go":         "package deep\n\ntype T struct{ D int }\n",
	"odd-name/o.go":       "package oddpkg\n\ntype T struct{ O int }\n",
	"internal/hid/h.go":   "package hid\n\ntype T struct{ H int }\n",
	"b/a/a.go":            "package a\n\ntype T struct{ BA int }\n",
	"go-yaml/y.go":        "package yaml\n\ntype T struct{ Y int }\n",
	"mods/third/go.mod":   "module example.com/third\n\ngo 1.24\n",
	"mods/third/t.go":     "package third\n\ntype T struct{ X1 int }\n",
	"mods/third/sub/t.go": "package sub\n\ntype T struct{ S int }\n",
	"mods/third2/go.mod":  "module example.com/third/v2\n\ngo 1.24\n",
	"mods/third2/t.go":    "package third\n\ntype T struct{ X2 int }\n",
	"mods/third3/go.mod":  "module example.com/third.v3\n\ngo 1.24\n",
	"mods/third3/t.go":    "package third\n\ntype T struct{ X3 int }\n",
	"mods/imposs/go.mod":  "module impossible\n\ngo 1.24\n",
	"mods/imposs/t.go":    "package impossible\n\ntype T struct{ I int }\n",
}

var impPrefixes = []string{"", "imp", "imp/", "imp/a", "imp/a/", "example.com", "example.com/third,imp/b", "time", "net/", "i", "example.com/third/v2", "imp/a,imp/a/deep,io", "nothing", "imp,example.com", "example.com/third.v3,impossible"}

// impNames gives every imported name one package, within one case.
type impNames struct {
	r    *rand.Rand
	used map[string]string // name -> path
	n    int
}

// pick chooses how a file imports a package: the import spec and the name.
func (m *impNames) pick(p impPkg) (spec, name string) {
	if o, ok := m.used[p.name]; (!ok || o == p.path) && m.r.Intn(3) > 0 {
		m.used[p.name] = p.path
		if m.r.Intn(5) == 0 {
			return p.name + ` "` + p.path + `"`, p.name
		}
		if m.r.Intn(12) == 0 {
			return "`" + p.path + "`", p.name
		}
		return `"` + p.path + `"`, p.name
	}
	m.n++
	name = fmt.Sprintf("%s%s%d", []string{"x", "my", "Z", "_u"}[m.r.Intn(4)], p.name, m.n)
	m.used[name] = p.path
	return name + ` "` + p.path + `"`, name
}

// impFile is a Go file that imports random packages and declares an interface.
func (m *impNames) file(pkg, iface string, extra []string, embeds []string) (string, []string) {
	var specs, meths []string
	for _, k := range m.r.Perm(len(impPkgs))[:1+m.r.Intn(6)] {
		p := impPkgs[k]
		if m.r.Intn(14) == 0 {
			specs = append(specs, `_ "`+p.path+`"`)
			continue
		}
		s, n := m.pick(p)
		specs = append(specs, s)
		use := n + p.use[strings.Index(p.use, "."):]
		if p.typ == "" || m.r.Intn(3) == 0 { // used in the file only, not by the interface
			meths = append(meths, "")
			embeds = append(embeds, "")
			extra = append(extra, "var _ = "+use)
			continue
		}
		t := n + "." + p.typ
		meths = append(meths, fmt.Sprintf("\t%s%d(v *%s, more ...[]%s) (map[string]%s, error)", iface, len(meths), t, t, t))
	}
	meths = append(meths, fmt.Sprintf("\t%sOwn(x int) error", iface))
	var b strings.Builder
	b.WriteString("package " + pkg + "\n\n")
	if m.r.Intn(3) == 0 {
		for _, s := range specs {
			b.WriteString("import " + s + "\n")
		}
	} else {
		b.WriteString("import (\n")
		for i, s := range specs {
			b.WriteString("\t" + s)
			if m.r.Intn(6) == 0 {
				b.WriteString(" // because")
			}
			if m.r.Intn(6) == 0 {
				b.WriteString("\n\t// a group")
			}
			if m.r.Intn(5) == 0 && i > 0 {
				b.WriteString("\n")
			}
			b.WriteString("\n")
		}
		for _, e := range extra {
			if strings.HasPrefix(e, "import ") {
				b.WriteString("\t" + e[7:] + "\n")
			}
		}
		b.WriteString(")\n")
	}
	b.WriteString("\ntype " + iface + " interface {\n")
	for _, e := range embeds {
		if e != "" {
			b.WriteString("\t" + e + "\n")
		}
	}
	for _, x := range meths {
		if x != "" {
			b.WriteString(x + "\n")
		}
	}
	b.WriteString("}\n\n")
	for _, e := range extra {
		if !strings.HasPrefix(e, "import ") {
			b.WriteString(e + "\n")
		}
	}
	return b.String(), specs
}

// template is a template with random imports of its own.
func (m *impNames) template() (text string, args []string, feats []string) {
	var specs, uses, blanks []string
	paths := map[string]bool{}
	for _, k := range m.r.Perm(len(impPkgs))[:m.r.Intn(6)] {
		p := impPkgs[k]
		paths[p.path] = true
		if m.r.Intn(14) == 0 {
			blanks = append(blanks, `_ "`+p.path+`"`)
			continue
		}
		s, n := m.pick(p)
		if strings.HasPrefix(s, "`") {
			s = `"` + p.path + `"`
		}
		specs = append(specs, s)
		if m.r.Intn(4) > 0 {
			uses = append(uses, fmt.Sprintf("var _ = %s", n+p.use[strings.Index(p.use, "."):]))
		} else {
			feats = append(feats, "unused-template-import")
		}
	}
	// what a template uses without importing it is looked up in the standard library
	for _, x := range [][2]string{{"strconv", "strconv.Itoa(1)"}, {"unicode", "unicode.IsSpace(' ')"}, {"bufio", "bufio.NewReader(nil)"}} {
		if _, ok := m.used[x[0]]; !ok && m.r.Intn(6) == 0 {
			uses = append(uses, "var _ = "+x[1])
			feats = append(feats, "forgotten-template-import")
		}
	}
	head := ""
	switch m.r.Intn(4) {
	case 0:
		feats = append(feats, "import-lines")
		for _, s := range append(specs, blanks...) {
			head += "import " + s + "\n"
		}
	case 1:
		feats = append(feats, "import-block")
		head = "import (\n"
		for _, s := range append(specs, blanks...) {
			head += "\t" + s + "\n"
			if m.r.Intn(4) == 0 {
				head += "\n"
			}
		}
		head += ")\n"
	default: // the helper takes paths; the other ones are written out
		feats = append(feats, "import-helper")
		var plain []string
		for _, s := range specs {
			if !strings.HasPrefix(s, `"`) {
				head += "import " + s + "\n"
				continue
			}
			p := strings.Trim(s, `"`)
			plain = append(plain, []string{p, s, " " + p, s + " "}[m.r.Intn(4)])
			if m.r.Intn(5) == 0 {
				plain = append(plain, p)
			}
		}
		for _, s := range blanks {
			head += "import " + s + "\n"
		}
		if m.r.Intn(4) == 0 {
			plain = append(plain, "")
		}
		q := ""
		for _, a := range plain {
			q += " " + strconv.Quote(a)
			args = append(args, a)
		}
		head += "{{.Import" + q + "}}\nconst zzImport = {{.Import" + q + " | printf \"%q\"}}\n"
	}
	if strings.Contains(head, "const zzImport") { // a declaration ends the imports
		i := strings.Index(head, "const zzImport")
		uses = append(uses, head[i:])
		head = head[:i]
	}
	return head + `
const zzImports = {{toJson .Imports | printf "%q"}}

type Zz{{.Interface.Name}} struct{ z {{.Interface.Type}} }
{{range $m := .Interface.Methods}}
func (zzd Zz{{$.Interface.Name}}) {{$m.Declaration}} {
	{{if $m.HasResults}}return {{end}}zzd.z.{{$m.Call}}
}
{{end}}
` + strings.Join(uses, "\n") + "\n", args, feats
}

type impCase struct {
	n        int
	tmpl     string
	args     []string
	feats    []string
	prefix   string
	declared []string // import specs of the file that declares the interface
	out      string
	pkg      string
	same     bool
	sources  string
	res      core.Result
}

func init() {
	reg("C07", func(c *core.Ctx) {
		c.Rule = "a case is one output of a random source package (three files and an embedded package with imports of their own), a random template and a local prefix; non-trivial: distinct imports, template imports and prefix"
		c.Assume = []string{"one name stands for one package in a case, in the sources and in the template", "gofmt is go/format, the compiler's verdict on imports is go/types'"}
		dir := c.Dir("imp")
		core.Write(dir, impFiles)
		var cs []*impCase
		for i := 0; i < c.Pick(90, 1500); i++ {
			r := rand.New(rand.NewSource(c.Seed*104729 + int64(i)))
			m := &impNames{r: r, used: map[string]string{}}
			k := &impCase{n: i, prefix: impPrefixes[r.Intn(len(impPrefixes))], same: r.Intn(4) == 0}
			base := fmt.Sprintf("c%d", i)
			emb, _ := m.file("emb", "Far", nil, nil)
			ebspec, ename := m.pick(impPkg{path: "imp/" + base + "/emb", name: "emb"})
			near, _ := m.file("src", "Near", nil, nil)
			var f string
			f, k.declared = m.file("src", "Target", []string{"import " + ebspec}, []string{"Near", ename + ".Far"})
			if !strings.Contains(f, ebspec) { // import lines
				f = strings.Replace(f, "package src\n", "package src\n\nimport "+ebspec+"\n", 1)
			}
			k.declared = append(k.declared, ebspec)
			k.tmpl, k.args, k.feats = m.template()
			k.sources = f + "\n// near.go\n" + near + "\n// emb.go\n" + emb
			core.Write(dir, map[string]string{base + "/src/target.go": f, base + "/src/a_near.go": near, base + "/emb/emb.go": emb, base + "/t.tmpl": k.tmpl})
			k.out, k.pkg = base+"/dst/out.go", "imp/"+base+"/dst"
			if k.same {
				k.out, k.pkg = base+"/src/zz_out.go", "imp/"+base+"/src"
			}
			if r.Intn(3) == 0 { // a file of the destination that imports something
				sib, _ := m.file(map[bool]string{true: "src", false: "dst"}[k.same], "Sibling", nil, nil)
				core.Write(dir, map[string]string{filepath.Dir(k.out) + "/sibling.go": sib})
				k.feats = append(k.feats, "sibling")
			}
			cs = append(cs, k)
		}
		var srcs []string
		for _, k := range cs {
			srcs = append(srcs, fmt.Sprintf("imp/c%d/src", k.n))
		}
		l := core.Load(core.GoRoot, dir, srcs...)
		for i, s := range srcs {
			if e := l.Err(s); e != "" {
				core.Fail("a source package of the harness does not compile: %s: %s\n%s", s, e, cs[i].sources)
			}
		}
		c.Gowrap()
		core.Parallel(len(cs), func(i int) {
			k := cs[i]
			a := []string{"gen", "-p", fmt.Sprintf("./c%d/src", k.n), "-i", "Target", "-t", fmt.Sprintf("c%d/t.tmpl", k.n), "-o", k.out}
			if k.prefix != "" {
				a = append(a, "-l", k.prefix)
			}
			k.res = c.Gen(dir, a...)
		})
		var dirs []string
		for _, k := range cs {
			dirs = append(dirs, filepath.Dir(filepath.Join(dir, k.out)))
		}
		mod := core.Load(core.GoRoot, dir, append(core.Imports(dirs...), "strconv", "unicode", "bufio")...)
		for _, k := range cs {
			checkImports(c, mod, dir, k)
		}
		cgoImports(c)
		if c.Violations() == 0 {
			c.Need("cgo_outputs", 4)
			c.Need("outputs", len(cs))
			c.Need("import_helper_renderings", len(cs)/4)
			c.Need("with_local_group", len(cs)/8)
			c.Need("imports", len(cs)*3)
		}
	})
}

// spec is an import as name and path.
func importSpec(s string) string {
	s = strings.TrimSpace(strings.ReplaceAll(s, "`", `"`))
	s = strings.Join(strings.Fields(s), " ")
	return s
}

func checkImports(c *core.Ctx, mod *core.Mod, dir string, k *impCase) {
	id := fmt.Sprintf("case%d", k.n)
	rep := map[string]string{"source.go.txt": k.sources, "template.txt": k.tmpl, "case.txt": fmt.Sprintf("prefix %q features %v\nexit %d\n%s", k.prefix, k.feats, k.res.Code, k.res.Err)}
	if k.res.Code != 0 {
		c.Finding("refused/"+id, fmt.Sprintf("gowrap refuses sources and a template that are fine (%v):\n%s", k.feats, core.Clip(k.res.Err, 1500)), rep)
		return
	}
	b, err := os.ReadFile(filepath.Join(dir, k.out))
	if err != nil {
		c.Finding("output/"+id, "gowrap exits with status 0 and writes no file", rep)
		return
	}
	out := string(b)
	rep["out.go.txt"] = out
	c.Count("outputs", 1)
	c.Eval(fmt.Sprint(k.declared, k.prefix, k.tmpl))
	f, err := format.Source(b)
	if err != nil || string(f) != out {
		c.Finding("format/"+id, fmt.Sprintf("the output is not what gofmt makes of it: %v\n%s", err, firstDiff(string(f), out)), rep)
		return
	}
	_, errs := mod.CheckDir(filepath.Dir(filepath.Join(dir, k.out)), k.pkg)
	if len(errs) > 0 {
		var es []string
		for _, e := range errs {
			es = append(es, e.Error())
		}
		c.Finding("compile/"+id, fmt.Sprintf("the output does not compile (%v, prefix %q):\n%s\n%s", k.feats, k.prefix, strings.Join(es, "\n"), core.Clip(out, 1500)), rep)
		return
	}
	// the local group
	fset := token.NewFileSet()
	af, err := parser.ParseFile(fset, "out.go", b, parser.ParseComments)
	core.Must(err, "parse")
	type imp struct {
		path  string
		group int
	}
	var is []imp
	group, last := 0, 0
	seen := map[string]bool{}
	for _, d := range af.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		group++
		for _, s := range g.Specs {
			sp := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(sp.Path.Value)
			line := fset.Position(sp.Pos()).Line
			if last > 0 && line > last+1 {
				blank := false
				for _, l := range strings.Split(out, "\n")[last : line-1] {
					blank = blank || strings.TrimSpace(l) == ""
				}
				if blank {
					group++
				}
			}
			last = line
			is = append(is, imp{p, group})
			n := ""
			if sp.Name != nil {
				n = sp.Name.Name
			}
			if seen[n+" "+p] {
				c.Finding("duplicate/"+id, "the output imports "+n+" "+p+" twice", rep)
			}
			seen[n+" "+p] = true
			c.Count("imports", 1)
		}
	}
	local := func(p string) bool {
		for _, l := range strings.Split(k.prefix, ",") {
			if l != "" && (strings.HasPrefix(p, l) || strings.TrimSuffix(l, "/") == p) {
				return true
			}
		}
		return false
	}
	lg := 0
	for i, x := range is {
		if !local(x.path) {
			if lg > 0 {
				c.Finding("group/"+id, fmt.Sprintf("with the local prefix %q the import of %s comes after or among the local ones:\n%s", k.prefix, x.path, importsText(out)), rep)
				return
			}
			continue
		}
		if lg == 0 {
			lg = x.group
			if i > 0 && is[i-1].group == lg {
				c.Finding("group/"+id, fmt.Sprintf("with the local prefix %q the import of %s is in one group with others:\n%s", k.prefix, x.path, importsText(out)), rep)
				return
			}
		}
		if x.group != lg {
			c.Finding("group/"+id, fmt.Sprintf("with the local prefix %q there is more than one group of local imports:\n%s", k.prefix, importsText(out)), rep)
			return
		}
	}
	if lg > 0 {
		c.Count("with_local_group", 1)
	}
	// the model's imports and the helper
	cs := consts(out)
	var model []string
	for _, s := range strings.Split(strings.Trim(cs["zzImports"], "[]"), ",") {
		var t string
		if t, err = strconv.Unquote(s); err == nil {
			model = append(model, importSpec(t))
		}
	}
	have := map[string]bool{}
	for _, s := range model {
		have[s] = true
	}
	for _, s := range k.declared {
		if !have[importSpec(s)] {
			c.Finding("model/"+id, fmt.Sprintf("the import %s of the source file is not in .Imports: %q", s, model), rep)
		}
	}
	text, ok := cs["zzImport"]
	if !ok {
		return
	}
	c.Count("import_helper_renderings", 1)
	want := map[string]bool{}
	for _, s := range model {
		want[s] = true
	}
	for _, a := range k.args {
		if a = strings.Trim(strings.TrimSpace(a), `"`); a != "" {
			want[`"`+a+`"`] = true
		}
	}
	hf, err := parser.ParseFile(token.NewFileSet(), "h.go", "package h\n"+text, 0)
	if err != nil {
		c.Finding("helper/"+id, fmt.Sprintf("the Import helper renders what is not Go: %v\n%s", err, text), rep)
		return
	}
	if len(hf.Decls) != 1 || len(hf.Decls[0].(*ast.GenDecl).Specs) != len(hf.Imports) {
		c.Finding("helper/"+id, "the Import helper does not render one block:\n"+text, rep)
	}
	var got []string
	for _, s := range hf.Imports {
		n := s.Path.Value
		if s.Name != nil {
			n = s.Name.Name + " " + n
		}
		got = append(got, importSpec(n))
	}
	sorted := append([]string{}, got...)
	sort.Strings(sorted)
	if strings.Join(sorted, "\n") != strings.Join(sortedKeys(want), "\n") {
		c.Finding("helper/"+id, fmt.Sprintf("the Import helper called with %q renders\n  %q\nthe source's and the template's imports are\n  %q", k.args, got, sortedKeys(want)), rep)
	}
	c.Sample(map[string]any{"prefix": k.prefix, "features": k.feats, "helper": k.args, "imports": importsText(out)})
}

func importsText(src string) string {
	i := strings.Index(src, "import")
	j := strings.Index(src, "\n)\n")
	if i < 0 || j < i {
		return core.Clip(src, 600)
	}
	return src[i : j+3]
}

// cgoImports decorates interfaces of files that use cgo, in their own and in
// another package, with templates that import what the file does, or nothing.
func cgoImports(c *core.Ctx) {
	dir := c.Dir("cgo")
	const body = "\ntype Zz{{.Interface.Name}} struct{ z {{.Interface.Type}} }\n{{range $m := .Interface.Methods}}\nfunc (zzd Zz{{$.Interface.Name}}) {{$m.Declaration}} { {{$m.Pass \"zzd.z.\"}} }\n{{end}}\n"
	core.Write(dir, map[string]string{"go.mod": "module cg\n\ngo 1.24\n",
		"src/a.go":  "package src\n\n// int twice(int x);\nimport \"C\"\n\nimport \"time\"\n\ntype I interface {\n\tF(time.Duration) error\n}\n\ntype OwnC interface {\n\tG(C.int, time.Duration) *C.char\n}\n\nvar _ C.int\n",
		"none.tmpl": body, "time.tmpl": "import (\n\t\"time\"\n)\n" + body + "\nvar _ time.Duration\n"})
	for _, k := range [][3]string{{"I", "none.tmpl", "d1/o.go"}, {"I", "time.tmpl", "d2/o.go"}, {"I", "none.tmpl", "src/zz1.go"}, {"OwnC", "time.tmpl", "src/zz2.go"}} {
		r := c.Gen(dir, "gen", "-p", "./src", "-i", k[0], "-t", k[1], "-o", k[2])
		b, _ := os.ReadFile(filepath.Join(dir, k[2]))
		e := "not generated"
		if r.Code == 0 {
			p := "cg/" + filepath.Dir(k[2])
			e = core.Load(core.GoRoot, dir, p).Err(p)
		}
		f, err := format.Source(b)
		if e == "" && (err != nil || string(f) != string(b)) {
			e = "not formatted"
		}
		if e == "" && !strings.HasPrefix(k[2], "src") && strings.Contains(string(b), `"C"`) {
			e = "the output imports C, which it does not use"
		}
		if e != "" {
			c.Finding("cgo/"+k[2], fmt.Sprintf("the interface %s of a file that uses cgo, %s, %s:\n%s\n%s\n%s", k[0], k[1], k[2], e, r.Err, core.Clip(string(b), 1000)), map[string]string{"out.go.txt": string(b)})
			return
		}
		c.Eval("cgo" + fmt.Sprint(k))
		c.Count("cgo_outputs", 1)
	}
}
