package checks

import (
	"fmt"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"verifharness/internal/core"
)

// workspaces generates across modules: workspaces, replaced modules that are
// nested or stand beside, and vendored packages. Source and destination can belong to
// different modules. Every request is made from several directories, with an import
// path and, where there is one, a relative path.
func workspaces(c *core.Ctx) {
	const iface = "package %s\n\nimport \"time\"\n\ntype T struct{ A int }\n\ntype Iface interface {\n\tF(t T, d ...time.Duration) (*T, error)\n\tG(func(T)) map[string]T\n}\n"
	const tmpl = "type Dec struct{ base {{.Interface.Type}} }\n\nvar _ {{.Interface.Type}} = (*Dec)(nil)\n\n{{range .Interface.Methods}}func (_d *Dec) {{.Declaration}} {\n\t{{.Pass \"_d.base.\"}}\n}\n\n{{end}}const ZDec = \"{{.Interface.Type}}\"\n"
	type dst struct{ dir, clause string }
	type layout struct {
		name  string
		env   []string
		files map[string]string
		mod   string            // where the main module is
		srcs  map[string]string // directory: import path
		dsts  []dst
		tidy  []string // where the go command builds
	}
	gomod := func(name string, more ...string) string {
		return "module " + name + "\n\ngo 1.24\n" + strings.Join(more, "\n") + "\n"
	}
	layouts := []layout{
		{"workspace", []string{"GOWORK=", "GOFLAGS="}, map[string]string{
			"go.work": "go 1.24\n\nuse (\n\t./a\n\t./b\n\t./b/nested\n)\n", "a/go.mod": gomod("ex.com/a"), "b/go.mod": gomod("ex.com/b"), "b/nested/go.mod": gomod("ex.com/b/nested/v2"),
			"a/src/s.go": fmt.Sprintf(iface, "src"), "a/own.go": "package roota\n", "b/pkg/p.go": fmt.Sprintf(iface, "other"), "b/nested/n.go": fmt.Sprintf(iface, "nested"), "b/have/x.go": "package had\n",
		}, ".", map[string]string{"a/src": "ex.com/a/src", "b/pkg": "ex.com/b/pkg", "b/nested": "ex.com/b/nested/v2"},
			[]dst{{"a/src", "src"}, {"a", "roota"}, {"a/new", "new"}, {"b/pkg", "other"}, {"b/have", "had"}, {"b/new/er", "er"}, {"b/nested", "nested"}, {"b/nested/mocks", "mocks"}}, []string{"a", "b", "b/nested"}},
		{"replaced", nil, map[string]string{
			"main/go.mod": gomod("ex.com/main", "require ex.com/lib/v3 v3.1.0", "replace ex.com/lib/v3 => ../lib"), "lib/go.mod": gomod("ex.com/lib/v3"),
			"lib/src/s.go": fmt.Sprintf(iface, "src"), "lib/l.go": fmt.Sprintf(iface, "lib"), "main/m.go": "package main\n\nfunc main() {}\n", "main/in/i.go": fmt.Sprintf(iface, "inner"),
		}, "main", map[string]string{"lib/src": "ex.com/lib/v3/src", "lib": "ex.com/lib/v3", "main/in": "ex.com/main/in"},
			[]dst{{"main", "main"}, {"main/in", "inner"}, {"main/lib", "lib"}, {"main/a/src", "src"}}, []string{"main"}},
		{"nested-replaced", nil, map[string]string{
			"go.mod": gomod("ex.com/main", "require ex.com/main/lib v0.0.0", "replace ex.com/main/lib => ./lib"), "lib/go.mod": gomod("ex.com/main/lib"),
			"lib/src/s.go": fmt.Sprintf(iface, "src"), "in/i.go": fmt.Sprintf(iface, "in"), "lib.go": "package top\n",
		}, ".", map[string]string{"lib/src": "ex.com/main/lib/src", "in": "ex.com/main/in"},
			[]dst{{".", "top"}, {"in", "in"}, {"mocks", "mocks"}}, []string{"."}},
		{"vendored", []string{"GOFLAGS=-mod=vendor"}, map[string]string{
			"go.mod": gomod("ex.com/main", "require ex.com/lib v1.0.0"), "vendor/modules.txt": "# ex.com/lib v1.0.0\n## explicit; go 1.24\nex.com/lib\nex.com/lib/src\n",
			"vendor/ex.com/lib/src/s.go": fmt.Sprintf(iface, "src"), "vendor/ex.com/lib/l.go": fmt.Sprintf(iface, "lib"), "use.go": "package top\n\nimport (\n\t_ \"ex.com/lib\"\n\t_ \"ex.com/lib/src\"\n)\n", "in/i.go": fmt.Sprintf(iface, "in"),
		}, ".", map[string]string{"vendor/ex.com/lib/src": "ex.com/lib/src", "vendor/ex.com/lib": "ex.com/lib", "in": "ex.com/main/in"},
			[]dst{{".", "top"}, {"in", "in"}, {"lib", "lib"}, {"new/src", "src"}}, []string{"."}},
	}
	type cse struct {
		l        *layout
		src, dst string
		clause   string
		cwd, p   string
		root     string
	}
	root := c.Dir("ws")
	var cs []*cse
	for li := range layouts {
		l := &layouts[li]
		for src, path := range l.srcs {
			for _, d := range l.dsts {
				for _, cwd := range []string{l.mod, src, d.dir} {
					if cwd == src && strings.HasPrefix(src, "vendor") || cwd == d.dir && l.files[cwd+"/x.go"] == "" && cwd != l.mod && cwd != src {
						continue
					}
					if l.name != "workspace" && !strings.HasPrefix(cwd+"/", l.mod+"/") && l.mod != "." {
						continue // another module's directory
					}
					if l.name == "nested-replaced" && strings.HasPrefix(cwd, "lib/") {
						continue
					}
					ps := []string{path}
					rel, err := filepath.Rel(cwd, src)
					core.Must(err, "Rel")
					if !strings.HasPrefix(src, "vendor") && (l.name == "workspace" || strings.HasPrefix(src+"/", l.mod+"/")) {
						ps = append(ps, "./"+rel)
					}
					for _, p := range ps {
						k := &cse{l: l, src: src, dst: d.dir, clause: d.clause, cwd: cwd, p: p, root: filepath.Join(root, fmt.Sprint(len(cs)))}
						if l.name == "workspace" && cwd == "." && p == path {
							k.cwd = "a" // the workspace's own directory is in no module
						}
						cs = append(cs, k)
					}
				}
			}
		}
	}
	gw := c.Gowrap()
	core.Parallel(len(cs), func(i int) {
		k := cs[i]
		core.Write(k.root, k.l.files)
		core.Write(k.root, map[string]string{"t.tmpl": tmpl})
		before := snapshot(k.root)
		cwd := filepath.Join(k.root, k.cwd)
		o, err := filepath.Rel(cwd, filepath.Join(k.root, k.dst, "out.go"))
		core.Must(err, "Rel")
		env := core.Env(core.GoRoot, k.l.env...)
		r := core.Run(core.Cmd{Dir: cwd, Env: env, Args: []string{gw, "gen", "-p", k.p, "-i", "Iface", "-t", filepath.Join(k.root, "t.tmpl"), "-o", o}})
		what := fmt.Sprintf("%s: gowrap gen -p %s -o %s in %s", k.l.name, k.p, o, k.cwd)
		id := fmt.Sprintf("%s/%s/%s/%s/%v", k.l.name, k.src, k.dst, k.cwd, strings.HasPrefix(k.p, "."))
		out := ""
		report := func(kind, w string) {
			c.Finding("modules/"+kind+"/"+id, what+": "+w, map[string]string{"out.go.txt": out, "stderr.txt": r.Err})
		}
		c.Eval("modules" + id)
		if r.Code != 0 {
			report("refused", core.Clip(r.Err, 800))
			return
		}
		b, err := os.ReadFile(filepath.Join(k.root, k.dst, "out.go"))
		if err != nil {
			report("nothing", err.Error())
			return
		}
		out = string(b)
		for _, ch := range changes(before, snapshot(k.root)) {
			ok := strings.HasPrefix(ch, "created "+filepath.Join(k.dst, "out.go")+" (file")
			for d := k.dst; d != "." && !ok; d = filepath.Dir(d) {
				ok = strings.HasPrefix(ch, "created "+d+" (dir")
			}
			if !ok {
				report("other-file", ch)
			}
		}
		f, err := parser.ParseFile(token.NewFileSet(), "out.go", out, parser.ImportsOnly)
		if err != nil {
			report("syntax", err.Error())
			return
		}
		if f.Name.Name != k.clause {
			report("clause", "package "+f.Name.Name+", want "+k.clause)
			return
		}
		path := k.l.srcs[k.src]
		imported := false
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			imported = imported || p == path
		}
		if z, own := consts(out)["ZDec"], k.src == k.dst; own && (z != "Iface" || imported) || !own && (!strings.HasSuffix(z, ".Iface") || !imported) {
			report("qualified", fmt.Sprintf("refers to the interface as %s, source package imported: %v", z, imported))
			return
		}
		for _, d := range k.l.tidy {
			v := core.Run(core.Cmd{Dir: filepath.Join(k.root, d), Env: env, Args: []string{filepath.Join(core.GoRoot, "bin/go"), "build", "-o", os.DevNull, "./..."}})
			if v.Code != 0 {
				report("compile", core.Clip(v.Err, 1200))
			}
		}
		c.Count("modules_"+k.l.name, 1)
		c.Count("requests_between_modules", 1)
	})
	if c.Violations() == 0 {
		c.Need("requests_between_modules", len(cs)/2)
	}
}
