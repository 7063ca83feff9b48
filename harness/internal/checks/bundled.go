package checks

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"verifharness/internal/core"
	"verifharness/internal/world"
)

// realInterfaces lists the interfaces of installed packages that can be
// implemented elsewhere.
func realInterfaces(c *core.Ctx, dir string, pkgs []string) [][2]string {
	src := core.Load(core.GoRoot, dir, pkgs...)
	var out [][2]string
	for _, path := range pkgs {
		if src.Err(path) != "" {
			c.Count("real_packages_not_installed", 1)
			continue
		}
		pkg, err := src.Import(path)
		if err != nil {
			continue
		}
		for _, n := range pkg.Scope().Names() {
			o, ok := pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || !o.Exported() {
				continue
			}
			it, ok := o.Type().Underlying().(*types.Interface)
			if !ok || it.NumMethods() == 0 || !it.IsMethodSet() || !nameable(it) {
				continue
			}
			if nm, ok := types.Unalias(o.Type()).(*types.Named); ok && nm.TypeParams().Len() > 0 {
				continue
			}
			if hazardous(n, it) || hazardousImports(src.Fset.Position(o.Pos()).Filename) {
				c.Count("hazardous_interfaces_skipped", 1)
				continue
			}
			out = append(out, [2]string{path, n})
		}
	}
	return out
}

func init() {
	reg("C01", func(c *core.Ctx) {
		c.Rule = "a case is one interface decorated with one of the 18 bundled templates and compiled with its package; non-trivial: distinct template and interface type"
		c.Assume = []string{"the Go compiler and go/types judge the output", "opentelemetry is not installed: its decorators are compiled against a stub of its API"}
		r := rand.New(rand.NewSource(c.Seed * 131))
		tmp := c.Dir("mod")
		for _, f := range []string{"go.mod", "go.sum"} {
			b, err := os.ReadFile(filepath.Join(core.Verif, "harness", "decmod", f+".txt"))
			core.Must(err, f)
			core.Write(tmp, map[string]string{f: string(b)})
		}
		core.Must(os.CopyFS(filepath.Join(tmp, "otelstub"), os.DirFS(filepath.Join(core.Verif, "harness", "decmod", "otelstub"))), "stub")
		for _, n := range []string{"go.mod"} {
			_ = os.Rename(filepath.Join(tmp, "otelstub", n+".txt"), filepath.Join(tmp, "otelstub", n))
		}
		reals := realInterfaces(c, tmp, realPackages)
		r.Shuffle(len(reals), func(i, j int) { reals[i], reals[j] = reals[j], reals[i] })
		if n := c.Pick(14, 400); len(reals) > n {
			reals = reals[:n]
		}
		tmpls := bundled()
		w := world.Build(c, "w", world.Opts{Templates: tmpls, Modules: c.Pick(4, 30), Per: 5, Hostile: true, Seed: c.Seed*17 + 3, NoGlue: true, Extra: reals, Names: true})
		w.ReportFailed()
		var dirs []string
		seen := map[string]bool{}
		for _, t := range w.Targets {
			if d := filepath.Dir(t.Out); t.Err == "" && !seen[d] {
				seen[d] = true
				dirs = append(dirs, filepath.Join(w.Dir, d))
			}
		}
		mod := core.Load(core.GoRoot, w.Dir, core.Imports(dirs...)...)
		type checked struct {
			pkg  *types.Package
			errs []error
		}
		pkgs := map[string]checked{}
		for _, d := range dirs {
			rel, _ := filepath.Rel(w.Dir, d)
			p, errs := mod.CheckDir(d, "decmod/"+rel)
			pkgs[rel] = checked{p, errs}
		}
		if c.Thorough() { // the real compiler too
			var pats []string
			for d := range pkgs {
				pats = append(pats, "decmod/"+d)
			}
			full := core.Load(core.GoRoot, w.Dir, pats...)
			for d, p := range pkgs {
				if e := full.Err("decmod/" + d); e != "" && len(p.errs) == 0 {
					pkgs[d] = checked{p.pkg, []error{fmt.Errorf("%s", e)}}
				}
				c.Count("compiled_for_real", 1)
			}
		}
		for _, t := range w.Targets {
			if t.Err != "" {
				continue
			}
			res := pkgs[filepath.Dir(t.Out)]
			id := fmt.Sprintf("%s/%s/%s", t.Tmpl, t.Stat, t.Where)
			what := fmt.Sprintf("the decorator of %s generated with %s (%v, %v)", t.Stat, t.Tmpl, t.Vars, t.Feats)
			if len(res.errs) > 0 {
				mine := ""
				for _, e := range res.errs {
					if t.Where == "cross" || strings.Contains(e.Error(), t.Out) {
						mine += e.Error() + "\n"
					}
				}
				if mine == "" && brokenBy(res.errs, w.Targets) == nil {
					mine = "(nothing but the generated files can be to blame)\n" + fmt.Sprint(res.errs)
				}
				if mine != "" {
					c.Finding("compile/"+id, what+" does not compile:\n"+core.Clip(mine, 1500), w.TargetFiles(t))
				}
				continue
			}
			out := res.pkg
			o := out.Scope().Lookup(t.Dec)
			c.Count("compiled", 1)
			if o == nil {
				c.Finding("name/"+id, what+" declares no type "+t.Dec, w.TargetFiles(t))
				continue
			}
			var it *types.Interface
			if t.Where == "same" {
				it, _ = out.Scope().Lookup(t.Name).Type().Underlying().(*types.Interface)
			} else {
				for _, i := range out.Imports() {
					if i.Path() == t.Pkg {
						it, _ = i.Scope().Lookup(t.Name).Type().Underlying().(*types.Interface)
					}
				}
				if it == nil {
					p, err := mod.Import(t.Pkg)
					core.Must(err, "types of the source")
					it, _ = p.Scope().Lookup(t.Name).Type().Underlying().(*types.Interface)
				}
			}
			if it == nil {
				core.Fail("no interface %s", t.Stat)
			}
			if !types.Implements(o.Type(), it) && !types.Implements(types.NewPointer(o.Type()), it) {
				c.Finding("implements/"+id, what+": "+t.Dec+" does not implement the interface", w.TargetFiles(t))
			}
			c.Count("implemented_methods", it.NumMethods())
			c.Eval(t.Tmpl + t.Where + t.Stat + it.String())
			c.Sample(map[string]any{"template": t.Tmpl, "interface": t.Stat, "decorator": t.Dec, "features": t.Feats})
		}
		c.Count("templates", len(tmpls))
		hazards(c, tmpls)
		locals(c, tmpls)
		if c.Violations() == 0 {
			c.Need("compiled", 500)
			c.Need("templates", 18)
			c.Need("local_names", 1000)
			c.Need("field_names", 500)
			c.Need("methods_with_names_of_types", 150)
		}
	})
}

// brokenBy finds the target whose output an error is in.
func brokenBy(errs []error, ts []*world.Target) *world.Target {
	for _, e := range errs {
		for _, t := range ts {
			if strings.Contains(e.Error(), t.Out) {
				return t
			}
		}
	}
	return nil
}

// bundled lists the templates of the working tree.
func bundled() []string {
	es, err := os.ReadDir(filepath.Join(core.Repo, "templates"))
	core.Must(err, "templates")
	have := map[string]bool{}
	for _, e := range es {
		have[e.Name()] = true
	}
	var out []string
	for _, t := range world.All {
		if !have[t] {
			core.Fail("the template %s is gone", t)
		}
		out = append(out, t)
	}
	return out
}

// hazardNames are the names of parameters that hide something a template
// uses. The decorators do not compile: known findings.
var hazardNames = map[string][]string{
	"circuitbreaker": {"errors", "time"}, "elasticapm": {"nil"}, "fallback": {"append", "close", "context", "errors", "fmt", "int", "len", "make", "string", "strings", "time"},
	"grpc_validate": {"nil", "error"}, "log": {"nil"}, "logrus": {"logrus", "string"}, "opencensus": {"string", "trace", "true"}, "opentelemetry": {"attribute", "string"},
	"opentracing": {"opentracing", "string", "true"}, "prometheus": {"time"}, "retry": {"time"}, "robinpool": {"atomic"}, "timeout": {"context"}, "twirp_validate": {"twirp", "error"}, "validate": {"nil", "error"},
}

// hazardous tells whether an interface is like the ones of the known findings.
func hazardous(name string, it *types.Interface) bool {
	all := map[string]bool{}
	for _, ns := range hazardNames {
		for _, n := range ns {
			all[n] = true
		}
	}
	for i := 0; i < it.NumMethods(); i++ {
		if it.Method(i).Name() == name {
			return true
		}
		sig := it.Method(i).Type().(*types.Signature)
		for _, t := range []*types.Tuple{sig.Params(), sig.Results()} {
			for k := 0; k < t.Len(); k++ {
				if all[t.At(k).Name()] {
					return true
				}
			}
		}
	}
	return false
}

// hazardousImports tells whether a file imports a package without a name that
// is called like one the templates import.
func hazardousImports(file string) bool {
	f, err := parser.ParseFile(token.NewFileSet(), strings.Replace(file, "$GOROOT", core.GoRoot, 1), nil, parser.ImportsOnly)
	if err != nil {
		return false
	}
	for _, i := range f.Imports {
		p := strings.Trim(i.Path.Value, "\"`")
		if i.Name != nil && i.Name.Name != "." {
			continue
		}
		if own, ok := templateImports()[filepath.Base(p)]; ok && (len(own) > 1 || !own[p]) {
			return true
		}
	}
	return false
}

// templateImports returns the paths the bundled templates import by the last
// element of the path.
var templateImports = sync.OnceValue(func() map[string]map[string]bool {
	m := map[string]map[string]bool{}
	for _, t := range bundled() {
		b, err := os.ReadFile(filepath.Join(core.Repo, "templates", t))
		core.Must(err, t)
		in := false
		for _, l := range strings.Split(string(b), "\n") {
			in = in || strings.HasPrefix(l, "import")
			if f := strings.Split(l, "\""); in && len(f) == 3 {
				name := filepath.Base(f[1])
				if n := strings.TrimSpace(strings.TrimPrefix(f[0], "import")); n != "" {
					name = n
				}
				if m[name] == nil {
					m[name] = map[string]bool{}
				}
				m[name][f[1]] = true
			}
			in = in && strings.TrimSpace(l) != ")"
		}
	}
	for _, n := range []string{"opentracing-go"} { // packages that are not called like the path
		m[strings.TrimSuffix(n, "-go")] = m[n]
	}
	return m
})

// hazards decorates the interfaces of the known findings.
func hazards(c *core.Ctx, tmpls []string) {
	dir := c.Dir("hazard")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(core.Verif, "harness", "decmod", f+".txt"))
		core.Must(err, f)
		core.Write(dir, map[string]string{f: string(b)})
	}
	core.Must(os.CopyFS(filepath.Join(dir, "otelstub"), os.DirFS(filepath.Join(core.Verif, "harness", "decmod", "otelstub"))), "stub")
	_ = os.Rename(filepath.Join(dir, "otelstub/go.mod.txt"), filepath.Join(dir, "otelstub/go.mod"))
	var b strings.Builder
	b.WriteString("package hazard\n\nimport c \"context\"\n\ntype V struct{ A int }\n\nfunc (V) Validate() error { return nil }\nfunc (V) ValidateAll() error { return nil }\n\n")
	b.WriteString("// Named has a method that is called like the interface\ntype Named interface {\n\tNamed(x int) error\n\tOther(ctx c.Context, v *V) (int, error)\n}\n\n")
	type cse struct{ tmpl, iface, out, err string }
	var cs []*cse
	for _, t := range tmpls {
		cs = append(cs, &cse{tmpl: t, iface: "Named"}, &cse{tmpl: t, iface: "Imports"}, &cse{tmpl: t, iface: "ImportsLog"})
		for _, n := range hazardNames[t] {
			i := "Hides_" + t + "_" + n
			fmt.Fprintf(&b, "type %s interface {\n\tF(ctx c.Context, %s V, b *V) (r int, failure error)\n\tG(%s ...*V) (x int, failure error)\n\tH(%s *V)\n\tK(x int) (%s int)\n}\n\n", i, n, n, n, n)
			cs = append(cs, &cse{tmpl: t, iface: i})
		}
	}
	core.Write(dir, map[string]string{"hazard/hazard.go": b.String(), "hazard/imports.go": "package hazard\n\nimport (\n\t\"context\"\n\n\t\"github.com/pkg/errors\"\n)\n\n// Imports is declared in a file that imports another package called errors\ntype Imports interface {\n\tDo(ctx context.Context, x *V) (int, error)\n}\n\nvar Err = errors.New(\"x\")\n",
		"hazard/importslog.go": "package hazard\n\nimport (\n\t\"context\"\n\n\t\"github.com/opentracing/opentracing-go/log\"\n)\n\n// ImportsLog is declared in a file that imports another package called log\ntype ImportsLog interface {\n\tDo(ctx context.Context, x *V) (int, error)\n}\n\nvar Log = log.Int(\"x\", 1)\n"})
	core.Parallel(len(cs), func(i int) {
		k := cs[i]
		k.out = fmt.Sprintf("hz%d/out.go", i)
		r := c.Gen(dir, "gen", "-p", "./hazard", "-i", k.iface, "-t", filepath.Join(core.Repo, "templates", k.tmpl), "-o", k.out, "-v", "DecoratorName=Dec")
		if r.Code != 0 {
			k.err = r.Err
		}
	})
	var dirs []string
	for _, k := range cs {
		dirs = append(dirs, filepath.Join(dir, filepath.Dir(k.out)))
	}
	mod := core.Load(core.GoRoot, dir, append(core.Imports(dirs...), "decmod/hazard")...)
	if e := mod.Err("decmod/hazard"); e != "" {
		core.Fail("the hazards do not compile: %s", e)
	}
	src, err := mod.Import("decmod/hazard")
	core.Must(err, "hazards")
	for _, k := range cs {
		if k.err == "" {
			p, errs := mod.CheckDir(filepath.Join(dir, filepath.Dir(k.out)), "decmod/"+filepath.Dir(k.out))
			if len(errs) > 0 {
				k.err = fmt.Sprint(errs)
			} else {
				it := src.Scope().Lookup(k.iface).Type().Underlying().(*types.Interface)
				o := p.Scope().Lookup("Dec")
				if o == nil || !types.Implements(o.Type(), it) && !types.Implements(types.NewPointer(o.Type()), it) {
					k.err = "Dec does not implement the interface"
				}
			}
		}
		c.Eval("hazard" + k.tmpl + k.iface)
		if k.err != "" {
			c.Finding("hazard/"+k.tmpl+"/"+k.iface, fmt.Sprintf("%s of the hazards with %s: %s", k.iface, k.tmpl, core.Clip(k.err, 1200)), map[string]string{"hazard.go": b.String()})
		}
	}
}

// likelyLocals are names the code of a decorator may be tempted to use.
var likelyLocals = []string{"since", "now", "start", "started", "startTime", "begin", "duration", "elapsed", "ticker", "timer", "ch", "next", "done", "errorsList", "res", "result", "results", "params", "args",
	"resultStruct", "e", "i", "n", "idx", "index", "j", "k", "v", "val", "ok", "impl", "impls", "base", "d", "dec", "decorator", "pool", "counter", "count", "attempt", "retry", "retries", "interval", "closesAt", "lock", "mu",
	"span", "spanName", "cancel", "cancelFunc", "fields", "entry", "labels", "logger", "msg", "code", "req", "request", "resp", "response", "jsonReq", "jsonRequest", "data", "body", "twerr", "perr", "errs", "list", "out", "instance", "name", "method", "ret", "wg", "fn", "f", "t", "timeout", "deadline", "last", "failed", "success", "acquired", "item", "iface", "self", "this", "_", "_x"}

// locals decorates interfaces whose parameters and results are called like
// local variables: the ones of the decorators the templates generate and the
// ones that are likely to be there.
func locals(c *core.Ctx, tmpls []string) {
	dir := c.Dir("locals")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(core.Verif, "harness", "decmod", f+".txt"))
		core.Must(err, f)
		core.Write(dir, map[string]string{f: string(b)})
	}
	core.Must(os.CopyFS(filepath.Join(dir, "otelstub"), os.DirFS(filepath.Join(core.Verif, "harness", "decmod", "otelstub"))), "stub")
	_ = os.Rename(filepath.Join(dir, "otelstub/go.mod.txt"), filepath.Join(dir, "otelstub/go.mod"))
	head := "package locals\n\nimport c \"context\"\n\ntype V struct{ A int }\n\nfunc (V) Validate() error { return nil }\nfunc (V) ValidateAll() error { return nil }\n\ntype Plain interface {\n\tF(ctx c.Context, a V, b *V) (r int, failure error)\n\tG(a ...*V) (x int, failure error)\n\tH(a *V)\n\tK(ctx c.Context, x int) (y int)\n}\n\n"
	core.Write(dir, map[string]string{"locals/locals.go": head})
	gen := func(t, iface, out string) string {
		r := c.Gen(dir, "gen", "-p", "./locals", "-i", iface, "-t", filepath.Join(core.Repo, "templates", t), "-o", out, "-v", "DecoratorName=Dec")
		if r.Code != 0 {
			return r.Err
		}
		return ""
	}
	errs := make([]string, len(tmpls))
	core.Parallel(len(tmpls), func(i int) { errs[i] = gen(tmpls[i], "Plain", fmt.Sprintf("pl%d/out.go", i)) })
	var b strings.Builder
	b.WriteString(head)
	names := make([][]string, len(tmpls))
	for i, t := range tmpls {
		if errs[i] != "" {
			c.Finding("locals/"+t, "gowrap refuses a plain interface with "+t+": "+core.Clip(errs[i], 1000), nil)
			continue
		}
		declared := bodyNames(filepath.Join(dir, fmt.Sprintf("pl%d/out.go", i)))
		c.Count("locals_of_decorators", len(declared))
		have := map[string]bool{"ctx": true, "err": true, "r": true, "x": true, "b": true, "failure": true}
		fmt.Fprintf(&b, "type Locals_%s interface {\n", t)
		for _, n := range append(declared, likelyLocals...) {
			if have[n] || strings.HasPrefix(n, "_") && n != "_" && n != "_x" {
				continue
			}
			have[n] = true
			names[i] = append(names[i], n)
			m := len(names[i])
			fmt.Fprintf(&b, "\tF%d(ctx c.Context, %s V, b *V) (r int, failure error)\n\tG%d(%s ...*V) (x int, failure error)\n\tH%d(%s *V)\n\tK%d(x int) (%s int)\n\tL%d(ctx c.Context, x V) (%s string, failure error)\n", m, n, m, n, m, n, m, n, m, n)
		}
		b.WriteString("}\n\n")
	}
	core.Write(dir, map[string]string{"locals/locals.go": b.String()})
	core.Parallel(len(tmpls), func(i int) {
		if errs[i] == "" {
			errs[i] = gen(tmpls[i], "Locals_"+tmpls[i], fmt.Sprintf("lo%d/out.go", i))
		}
	})
	var dirs []string
	for i := range tmpls {
		if errs[i] == "" {
			dirs = append(dirs, filepath.Join(dir, fmt.Sprintf("lo%d", i)))
		}
	}
	mod := core.Load(core.GoRoot, dir, append(core.Imports(dirs...), "decmod/locals")...)
	if e := mod.Err("decmod/locals"); e != "" {
		core.Fail("the locals do not compile: %s", e)
	}
	src, err := mod.Import("decmod/locals")
	core.Must(err, "locals")
	for i, t := range tmpls {
		c.Eval("locals" + t + strings.Join(names[i], ","))
		if len(names[i]) == 0 {
			continue
		}
		c.Count("local_names", len(names[i]))
		if errs[i] == "" {
			p, es := mod.CheckDir(filepath.Join(dir, fmt.Sprintf("lo%d", i)), fmt.Sprintf("decmod/lo%d", i))
			if len(es) > 0 {
				errs[i] = fmt.Sprint(es)
			} else {
				it := src.Scope().Lookup("Locals_" + t).Type().Underlying().(*types.Interface)
				if o := p.Scope().Lookup("Dec"); o == nil || !types.Implements(o.Type(), it) && !types.Implements(types.NewPointer(o.Type()), it) {
					errs[i] = "Dec does not implement the interface"
				}
			}
		}
		if errs[i] != "" {
			c.Finding("locals/"+t, fmt.Sprintf("the decorator made with %s of an interface whose parameters and results are called like local variables: %s", t, core.Clip(errs[i], 1500)), map[string]string{"locals.go": b.String()})
		}
	}
	methodFields(c, dir, tmpls)
	typeNames(c, dir, tmpls)
}

// typeNamesSrc declares an interface whose parameters and results are called
// like their own types, like the types of the ones beside them, like the
// packages of their types and like the interface.
const typeNamesSrc = `package tn%d

import (
	c "context"
	"net/url"
	"text/scanner"
	tpl "text/template"
)

type user struct{ A int }

func (user) Validate() error    { return nil }
func (user) ValidateAll() error { return nil }

type (
	order   struct{ B []user }
	failure error
	pair    map[user]*user
	i1      string
	s1      int
	rr1     uint
	p1      []byte
	ip1     user
	Visitor func(Iface) Iface
)

// Iface has parameters and results that are called like types
type Iface interface {
	Get(ctx c.Context, user user) (order *order, err error)
	Put(user *user, order ...order) (pair pair)
	Swap(order user, user *order) (pair pair, failure failure)
	Fetch(ctx c.Context, url *url.URL) (scanner scanner.Position, err error)
	Render(tpl *tpl.Template, url url.Values) (user user, err error)
	Visit(Iface Iface, Visitor Visitor) (pair pair, err error)
	Self(ctx c.Context) (Iface Iface, err error)
	Sink(user user, Iface Iface)
	Unnamed(i1, *s1, []rr1, ip1) (p1, i1, error)
	Half(i1 s1, _ i1, s1 i1) (_ p1, p1 error)
	Chan(user chan user, order <-chan []order) (pair chan<- pair, err error)
	Func(user func(user user) (order order)) (order struct{ user user }, err error)
}
`

// typeNames decorates an interface, in its own package, whose parameters and
// results are called like types.
func typeNames(c *core.Ctx, dir string, tmpls []string) {
	errs := make([]string, len(tmpls))
	core.Parallel(len(tmpls), func(i int) {
		core.Write(dir, map[string]string{fmt.Sprintf("tn%d/iface.go", i): fmt.Sprintf(typeNamesSrc, i)})
		r := c.Gen(dir, "gen", "-p", fmt.Sprintf("./tn%d", i), "-i", "Iface", "-t", filepath.Join(core.Repo, "templates", tmpls[i]), "-o", fmt.Sprintf("tn%d/out.go", i), "-v", "DecoratorName=Dec")
		if r.Code != 0 {
			errs[i] = "gowrap refuses it: " + r.Err
		}
	})
	var dirs []string
	for i := range tmpls {
		if errs[i] == "" {
			dirs = append(dirs, filepath.Join(dir, fmt.Sprintf("tn%d", i)))
		}
	}
	mod := core.Load(core.GoRoot, dir, core.Imports(dirs...)...)
	for i, t := range tmpls {
		c.Eval("typenames" + t)
		if errs[i] == "" {
			p, es := mod.CheckDir(filepath.Join(dir, fmt.Sprintf("tn%d", i)), fmt.Sprintf("decmod/tn%d", i))
			if len(es) > 0 {
				errs[i] = fmt.Sprint(es)
			} else {
				it := p.Scope().Lookup("Iface").Type().Underlying().(*types.Interface)
				c.Count("methods_with_names_of_types", it.NumMethods())
				if o := p.Scope().Lookup("Dec"); o == nil || !types.Implements(o.Type(), it) && !types.Implements(types.NewPointer(o.Type()), it) {
					errs[i] = "Dec does not implement the interface"
				}
			}
		}
		if errs[i] != "" {
			c.Finding("typenames/"+t, fmt.Sprintf("the decorator made with %s of an interface whose parameters and results are called like types: %s", t, core.Clip(errs[i], 1500)), map[string]string{"iface.go": fmt.Sprintf(typeNamesSrc, i)})
		}
	}
}

// likelyFields are names the fields of a decorator are likely to have.
var likelyFields = []string{"base", "impl", "impls", "implementations", "config", "pool", "poolSize", "counter", "interval", "timeout", "instance", "instanceName", "name", "log", "logger", "stdlog", "errlog", "mu", "lock", "ticks", "next", "wrapped", "inner", "opts", "startSpan", "endSpan", "setLabel", "captureError", "spanType", "spanDecorator", "errors", "retryCount", "retryInterval", "closesAt", "dec", "d"}

// methodFields decorates interfaces, in their own packages, whose methods are called
// like the fields of the decorators.
func methodFields(c *core.Ctx, dir string, tmpls []string) {
	errs := make([]string, len(tmpls))
	names := make([][]string, len(tmpls))
	srcs := make([]string, len(tmpls))
	core.Parallel(len(tmpls), func(i int) {
		t := tmpls[i]
		b := fmt.Sprintf("package fl%d\n\nimport c \"context\"\n\ntype Fields interface {\n", i)
		for _, n := range likelyFields {
			names[i] = append(names[i], n)
			sig := []string{"(ctx c.Context, x int) (r int, err error)", "(xs ...string) error", "()", "(x int) (y int)"}[len(names[i])%4]
			b += "\t" + n + sig + "\n\t" + strings.ToUpper(n[:1]) + n[1:] + sig + "\n"
		}
		srcs[i] = b + "}\n"
		core.Write(dir, map[string]string{fmt.Sprintf("fl%d/iface.go", i): srcs[i]})
		r := c.Gen(dir, "gen", "-p", fmt.Sprintf("./fl%d", i), "-i", "Fields", "-t", filepath.Join(core.Repo, "templates", t), "-o", fmt.Sprintf("fl%d/out.go", i), "-v", "DecoratorName=Dec")
		if r.Code != 0 {
			errs[i] = r.Err
		}
	})
	var dirs []string
	for i := range tmpls {
		if errs[i] == "" {
			dirs = append(dirs, filepath.Join(dir, fmt.Sprintf("fl%d", i)))
		}
	}
	mod := core.Load(core.GoRoot, dir, core.Imports(dirs...)...)
	for i, t := range tmpls {
		c.Eval("fields" + t + strings.Join(names[i], ","))
		c.Count("field_names", len(names[i]))
		if errs[i] == "" {
			p, es := mod.CheckDir(filepath.Join(dir, fmt.Sprintf("fl%d", i)), fmt.Sprintf("decmod/fl%d", i))
			if len(es) > 0 {
				errs[i] = fmt.Sprint(es)
			} else {
				it := p.Scope().Lookup("Fields").Type().Underlying().(*types.Interface)
				if o := p.Scope().Lookup("Dec"); o == nil || !types.Implements(o.Type(), it) && !types.Implements(types.NewPointer(o.Type()), it) {
					errs[i] = "Dec does not implement the interface"
				}
			}
		}
		if errs[i] != "" {
			c.Finding("fields/"+t, fmt.Sprintf("the decorator made with %s of an interface whose methods are called like fields: %s", t, core.Clip(errs[i], 1500)), map[string]string{"iface.go": srcs[i]})
		}
	}
}

// bodyNames lists what the functions of a file declare in their bodies.
func bodyNames(file string) []string {
	f, err := parser.ParseFile(token.NewFileSet(), file, nil, 0)
	if err != nil {
		return nil
	}
	have := map[string]bool{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		add := func(e ast.Expr) {
			if id, ok := e.(*ast.Ident); ok {
				have[id.Name] = true
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.AssignStmt:
				if n.Tok == token.DEFINE {
					for _, e := range n.Lhs {
						add(e)
					}
				}
			case *ast.RangeStmt:
				if n.Tok == token.DEFINE {
					add(n.Key)
					add(n.Value)
				}
			case *ast.ValueSpec:
				for _, id := range n.Names {
					add(id)
				}
			case *ast.TypeSpec:
				add(n.Name)
			case *ast.FuncType:
				for _, p := range n.Params.List {
					for _, id := range p.Names {
						add(id)
					}
				}
			}
			return true
		})
	}
	var out []string
	for n := range have {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
