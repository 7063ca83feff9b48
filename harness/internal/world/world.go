// Package world makes modules of interfaces, decorates them with the templates
// of the working tree and generates what the run-time monitors need to drive
// the results.
package world

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verifharness/internal/core"
	"verifharness/internal/progen"
)

// All lists the bundled templates.
var All = []string{"circuitbreaker", "elasticapm", "fallback", "grpc_validate", "log", "logrus", "opencensus", "opentelemetry", "opentracing", "prometheus", "ratelimit", "retry", "robinpool", "syncpool", "timeout", "twirp_error", "twirp_validate", "validate"}

// suffix is what the templates append to the name of the interface.
var suffix = map[string]string{
	"circuitbreaker": "WithCircuitBreaker", "elasticapm": "APMTracing", "fallback": "WithFallback", "grpc_validate": "WithGRPCValidation",
	"log": "WithLog", "logrus": "WithLogrus", "opencensus": "WithTracing", "opentelemetry": "WithTracing", "opentracing": "WithTracing",
	"prometheus": "WithPrometheus", "ratelimit": "WithRateLimit", "retry": "WithRetry", "robinpool": "RoundRobinPool", "syncpool": "Pool",
	"timeout": "WithTimeout", "twirp_error": "WithTwirpError", "twirp_validate": "WithTwirpValidation", "validate": "WithValidation", "kit": "Kit",
}

// Opts says what a world is made of.
type Opts struct {
	Templates []string
	// Modules of random interfaces, in addition to the hand-written ones
	Modules int
	Per     int // interfaces per random module
	Hostile bool
	Seed    int64
	Rt      []string // monitor packages to copy in addition to rt
	Skip    map[string]bool
	NoGlue  bool        // only decorators
	Extra   [][2]string // interfaces (package, name) of installed packages
	Names   bool        // decorator names of every kind
}

// Target is one decorator.
type Target struct {
	Pkg   string // import path of the source package
	Dir   string // its directory
	Name  string
	Where string // cross or same
	Tmpl  string
	Dec   string
	Vars  []string
	Out   string // file
	Feats []string
	Err   string // why generation failed
	Stat  string // unique key of the interface
}

// World is the result.
type World struct {
	C       *core.Ctx
	Dir     string
	Targets []*Target
	Sources *core.Mod
}

type iface struct {
	pkg, dir, name, where string
	feats                 []string
}

// Build makes a world: sources, decorators, glue.
func Build(c *core.Ctx, name string, o Opts) *World {
	w := &World{C: c, Dir: c.Dir(name)}
	copyTree(filepath.Join(core.Verif, "harness", "decmod"), w.Dir, o.Rt)

	var ifs []iface
	for _, n := range []string{"Core", "Second", "Single"} {
		ifs = append(ifs, iface{"decmod/core", "core", n, "cross", []string{"hand-written"}})
	}
	// the same in the package of the interface, one of them unexported
	src, err := os.ReadFile(filepath.Join(w.Dir, "core/core.go"))
	core.Must(err, "core.go")
	s2 := strings.Replace(string(src), "package core", "package core2", 1)
	s2 = strings.Replace(s2, "type Second interface", "type second interface", 1)
	s2 = strings.Replace(s2, "type Third interface {", "type Third interface {\n\tquietly(ctx context.Context, userName string, more ...int) (n int, err error)\n\tünseen(v Val) string\n", 1)
	core.Write(w.Dir, map[string]string{"core2/core.go": s2})
	for _, n := range []string{"Core", "second"} {
		ifs = append(ifs, iface{"decmod/core2", "core2", n, "same", []string{"hand-written"}})
	}
	for i := 0; i < o.Modules; i++ {
		r := rand.New(rand.NewSource(o.Seed*7919 + int64(i)))
		dir := fmt.Sprintf("p%d", i)
		po := progen.Opts{Interfaces: o.Per, Local: i%2 == 1, Embeds: true, Hostile: o.Hostile, MaxMethods: 5}
		m := progen.New(r, "decmod/"+dir, po)
		fs := map[string]string{}
		for n, b := range m.Files {
			if n != "go.mod" {
				fs[dir+"/"+n] = b
			}
		}
		core.Write(w.Dir, fs)
		for _, it := range m.Ifaces {
			where := "cross"
			if it.Local || i%2 == 1 {
				where = "same"
			}
			ifs = append(ifs, iface{"decmod/" + dir + "/src", dir + "/src", it.Name, where, it.Feats})
		}
	}
	for _, x := range o.Extra {
		ifs = append(ifs, iface{x[0], "", x[1], "cross", []string{"installed"}})
	}
	pkgs := map[string]bool{}
	var patterns []string
	for _, f := range ifs {
		if !pkgs[f.pkg] {
			pkgs[f.pkg] = true
			patterns = append(patterns, f.pkg)
		}
	}
	w.Sources = core.Load(core.GoRoot, w.Dir, patterns...)
	for p := range pkgs {
		if e := w.Sources.Err(p); e != "" {
			core.Fail("a source package of the harness does not compile: %s: %s", p, e)
		}
	}

	byOut := map[string][]*Target{}
	var order []string
	for k, f := range ifs {
		for _, t := range o.Templates {
			if o.Skip[t+"/"+f.name] {
				continue
			}
			tg := &Target{Pkg: f.pkg, Dir: f.dir, Name: f.name, Where: f.where, Tmpl: t, Feats: f.feats, Stat: fmt.Sprintf("%s.%s", f.pkg, f.name)}
			if f.where == "cross" {
				tg.Dec = f.name + suffix[t]
				tg.Out = fmt.Sprintf("gen/k%d_%s/out.go", k, t)
				if strings.HasPrefix(f.pkg, "decmod/p") && k%3 == 0 {
					tg.Dec = "Custom" + f.name
					tg.Vars = append(tg.Vars, "DecoratorName="+tg.Dec)
				} else if o.Names && len(w.Targets)%5 == 0 {
					tg.Dec = []string{"D", "decor", "Ünïcode_2", "X" + f.name, "_D", "Dec0rator"}[len(w.Targets)/5%6]
					tg.Vars = append(tg.Vars, "DecoratorName="+tg.Dec)
				}
			} else {
				tg.Dec = f.name + strings.ReplaceAll(t, "_", "") + "Dec"
				tg.Vars = append(tg.Vars, "DecoratorName="+tg.Dec)
				tg.Out = fmt.Sprintf("%s/zz_k%d_%s.go", f.dir, k, t)
			}
			if t == "prometheus" && !(f.pkg == "decmod/core") {
				tg.Vars = append(tg.Vars, fmt.Sprintf("MetricName=metric_k%d", k))
			}
			if t == "opentelemetry" && k%2 == 1 {
				tg.Vars = append(tg.Vars, fmt.Sprintf("SpanNamePrefix=prefix/k%d", k))
			}
			if t == "elasticapm" && k%2 == 1 {
				tg.Vars = append(tg.Vars, fmt.Sprintf("ComponentName=component%d", k))
			}
			d := filepath.Dir(tg.Out)
			if byOut[d] == nil {
				order = append(order, d)
			}
			byOut[d] = append(byOut[d], tg)
			w.Targets = append(w.Targets, tg)
		}
	}
	c.Gowrap()
	core.Parallel(len(order), func(i int) {
		for _, tg := range byOut[order[i]] {
			w.gen(tg)
		}
	})
	if !o.NoGlue {
		w.glue()
	}
	return w
}

// template is the file of a template: one of the harness or of the working tree
func (w *World) template(name string) string {
	if name == "kit" {
		return filepath.Join(w.Dir, "hook", "kit.tmpl")
	}
	return filepath.Join(core.Repo, "templates", name)
}

func (w *World) gen(t *Target) {
	args := []string{"gen", "-p", t.Pkg, "-i", t.Name, "-t", w.template(t.Tmpl), "-o", "./" + t.Out}
	for _, v := range t.Vars {
		args = append(args, "-v", v)
	}
	r := w.C.Gen(w.Dir, args...)
	w.C.Count("decorators_generated", 1)
	if r.Code != 0 {
		t.Err = r.Out + r.Err
		if t.Err == "" {
			t.Err = fmt.Sprintf("exit status %d", r.Code)
		}
	}
}

// Failed lists the targets that were not generated.
func (w *World) Failed() []*Target {
	var out []*Target
	for _, t := range w.Targets {
		if t.Err != "" {
			out = append(out, t)
		}
	}
	return out
}

func copyTree(from, to string, rts []string) {
	keep := map[string]bool{"rt": true, "hook": true, "core": true, "otelstub": true}
	for _, r := range rts {
		keep[r] = true
	}
	core.Must(filepath.Walk(from, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		if i.IsDir() {
			if rel != "." && !strings.Contains(rel, "/") && !keep[rel] {
				return filepath.SkipDir
			}
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel = strings.TrimSuffix(rel, ".txt")
		core.Write(to, map[string]string{rel: string(b)})
		return nil
	}), "copy of the run-time")
}

// builders are the constructors of the templates: parameters, expression.
var builders = map[string][2]string{
	"retry":          {"base any, n int, d time.Duration", "New%D(base.(%I), n, d)"},
	"circuitbreaker": {"base any, n int, d time.Duration, ign ...error", "New%D(base.(%I), n, d, ign...)"},
	"ratelimit":      {"base any, burst int, rps float64", "New%D(base.(%I), burst, rps)"},
	"syncpool":       {"impls ...any", "New%D(many(impls)...)"},
	"fallback":       {"interval time.Duration, impls ...any", "New%D(interval, many(impls)...)"},
	"kit":            {"base any, mode int, see func(hook.Kit)", "New%D(base.(%I), mode, see)"},
	"log":            {"base any, out, errs io.Writer", "New%D(base.(%I), out, errs)"},
	"logrus":         {"base any, e *logrus.Entry", "New%D(base.(%I), e)"},
	"prometheus":     {"base any, instance string", "New%D(base.(%I), instance)"},
	"validate":       {"base any", "New%D(base.(%I))"},
	"grpc_validate":  {"base any", "New%D(base.(%I))"},
	"twirp_validate": {"base any", "New%D(base.(%I))"},
	"twirp_error":    {"base any", "New%D(base.(%I))"},
	"opencensus":     {"base any, instance string, sd ...func(*octrace.Span, map[string]interface{}, map[string]interface{})", "New%D(base.(%I), instance, sd...)"},
	"opentracing":    {"base any, instance string, sd ...func(opentracing.Span, map[string]interface{}, map[string]interface{})", "New%D(base.(%I), instance, sd...)"},
	"opentelemetry":  {"base any, instance string, sd ...func(oteltrace.Span, map[string]interface{}, map[string]interface{})", "New%D(base.(%I), instance, sd...)"},
}

var builderImports = map[string]string{
	"kit":    `"decmod/hook"`,
	"logrus": `"github.com/sirupsen/logrus"`, "opencensus": `octrace "go.opencensus.io/trace"`,
	"opentracing": `opentracing "github.com/opentracing/opentracing-go"`, "opentelemetry": `oteltrace "go.opentelemetry.io/otel/trace"`,
}

// glue writes the fakes and the registration of every generated decorator.
func (w *World) glue() {
	groups := map[string][]*Target{} // by interface and output directory
	var keys []string
	for _, t := range w.Targets {
		if t.Err != "" {
			continue
		}
		k := t.Stat + "|" + filepath.Dir(t.Out)
		if groups[k] == nil {
			keys = append(keys, k)
		}
		groups[k] = append(groups[k], t)
	}
	outs := map[string]bool{}
	for n := range keys { // the importer works on demand: not in parallel
		ts := groups[keys[n]]
		dir := filepath.Dir(ts[0].Out)
		core.Write(w.Dir, map[string]string{filepath.Join(dir, fmt.Sprintf("zz_glue%d.go", n)): w.glueFile(n, ts)})
		outs[dir] = true
	}
	var b strings.Builder
	b.WriteString("package run\n\nimport (\n")
	var ds []string
	for d := range outs {
		ds = append(ds, d)
	}
	sort.Strings(ds)
	for _, d := range ds {
		fmt.Fprintf(&b, "\t_ \"decmod/%s\"\n", d)
	}
	b.WriteString(")\n")
	core.Write(w.Dir, map[string]string{"run/all_test.go": b.String()})
}

func (w *World) glueFile(n int, ts []*Target) string {
	t0 := ts[0]
	pkg, err := w.Sources.Source(t0.Pkg)
	core.Must(err, "types of "+t0.Pkg)
	obj := pkg.Scope().Lookup(t0.Name)
	if obj == nil {
		core.Fail("%s has no %s", t0.Pkg, t0.Name)
	}
	it := obj.Type().Underlying().(*types.Interface)
	outPkg := "decmod/" + filepath.Dir(t0.Out)
	pkgName := pkg.Name()
	if t0.Where == "cross" {
		pkgName = packageClause(filepath.Join(w.Dir, t0.Out))
	}
	imps := map[string]string{"time": "time", "io": "io", "reflect": "reflect", "decmod/rt": "rt"}
	q := func(p *types.Package) string {
		if p.Path() == outPkg {
			return ""
		}
		if a, ok := imps[p.Path()]; ok {
			return a
		}
		a := fmt.Sprintf("q%d", len(imps))
		imps[p.Path()] = a
		return a
	}
	ifn := types.TypeString(obj.Type(), q)
	var body strings.Builder
	fake := fmt.Sprintf("zzFake%d", n)
	fmt.Fprintf(&body, "type %s struct{ zzI *rt.Impl }\n\n", fake)
	var pn, rn []string
	open := "nil"
	fmt.Fprintf(&body, "type zzOpen%d struct{ x %s }\n\n", n, ifn)
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		sig := m.Type().(*types.Signature)
		var ps, rs, pa, ra, pnames, rnames []string
		for k := 0; k < sig.Params().Len(); k++ {
			v := sig.Params().At(k)
			ty := types.TypeString(v.Type(), q)
			if sig.Variadic() && k == sig.Params().Len()-1 {
				ty = "..." + types.TypeString(v.Type().(*types.Slice).Elem(), q)
			}
			ps = append(ps, fmt.Sprintf("p%d %s", k, ty))
			pa = append(pa, fmt.Sprintf("&p%d", k))
			pnames = append(pnames, fmt.Sprintf("%q", v.Name()))
		}
		for k := 0; k < sig.Results().Len(); k++ {
			v := sig.Results().At(k)
			rs = append(rs, fmt.Sprintf("r%d %s", k, types.TypeString(v.Type(), q)))
			ra = append(ra, fmt.Sprintf("&r%d", k))
			rnames = append(rnames, fmt.Sprintf("%q", v.Name()))
		}
		fmt.Fprintf(&body, "func (f *%s) %s(%s) (%s) { f.zzI.Call(%q, []any{%s}, []any{%s}); return }\n\n",
			fake, m.Name(), strings.Join(ps, ", "), strings.Join(rs, ", "), m.Name(), strings.Join(pa, ", "), strings.Join(ra, ", "))
		if !m.Exported() { // for reflection
			open = fmt.Sprintf("func(x any) any { return zzOpen%d{x.(%s)} }", n, ifn)
			ret, call := "", []string{}
			for k := range ps {
				call = append(call, fmt.Sprintf("p%d", k))
			}
			if len(rs) > 0 {
				ret = "return "
			}
			dots := ""
			if sig.Variadic() {
				dots = "..."
			}
			fmt.Fprintf(&body, "func (o zzOpen%d) Zz_%s(%s) (%s) { %so.x.%s(%s%s) }\n\n", n, m.Name(), strings.Join(ps, ", "), strings.Join(rs, ", "), ret, m.Name(), strings.Join(call, ", "), dots)
		}
		pn = append(pn, fmt.Sprintf("%q: {%s}", m.Name(), strings.Join(pnames, ", ")))
		rn = append(rn, fmt.Sprintf("%q: {%s}", m.Name(), strings.Join(rnames, ", ")))
	}
	fmt.Fprintf(&body, "func zzMany%d(in []any) (out []%s) { for _, x := range in { out = append(out, x.(%s)) }; return }\n\n", n, ifn, ifn)
	fmt.Fprintf(&body, "func init() {\n\trt.Add(&rt.Iface{Name: %q, Where: %q, Key: %q,\n\t\tOpen: %s,\n\t\tType: reflect.TypeOf((*%s)(nil)).Elem(),\n\t\tNew: func(i *rt.Impl) any { return &%s{i} },\n\t\tPNames: map[string][]string{%s},\n\t\tRNames: map[string][]string{%s},\n\t\tB: map[string]any{\n",
		t0.Name, t0.Where, t0.Stat, open, ifn, fake, strings.Join(pn, ", "), strings.Join(rn, ", "))
	extra := map[string]bool{}
	wrap := func(params, expr string, t *Target) string {
		e := strings.NewReplacer("%D", t.Dec, "%I", ifn, "many(", fmt.Sprintf("zzMany%d(", n)).Replace(expr)
		return fmt.Sprintf("func(%s) any { var x %s = %s; return x }", params, ifn, e)
	}
	for _, t := range ts {
		if b, ok := builders[t.Tmpl]; ok {
			fmt.Fprintf(&body, "\t\t\t%q: %s,\n", t.Tmpl, wrap(b[0], b[1], t))
		}
		if i, ok := builderImports[t.Tmpl]; ok {
			extra[i] = true
		}
		switch t.Tmpl {
		case "robinpool":
			fmt.Fprintf(&body, "\t\t\t\"robinpool\": func(impls ...any) (any, error) { x, err := New%s(zzMany%d(impls)...); if x == nil { return nil, err }; var y %s = x; return y, err },\n", t.Dec, n, ifn)
			fmt.Fprintf(&body, "\t\t\t\"robinpool_must\": %s,\n", wrap("impls ...any", "MustNew%D(many(impls)...)", t))
		case "timeout":
			var sets []string
			for i := 0; i < it.NumMethods(); i++ {
				m := it.Method(i)
				ps := m.Type().(*types.Signature).Params()
				if ps.Len() > 0 && ps.At(0).Type().String() == "context.Context" && (m.Exported() || t.Where == "same") {
					sets = append(sets, fmt.Sprintf("%sTimeout: m[%q]", m.Name(), m.Name()))
				}
			}
			fmt.Fprintf(&body, "\t\t\t\"timeout\": func(base any, m map[string]time.Duration) any { var x %s = New%s(base.(%s), %sConfig{%s}); return x },\n",
				ifn, t.Dec, ifn, t.Dec, strings.Join(sets, ", "))
		case "elasticapm":
			fmt.Fprintf(&body, "\t\t\t\"elasticapm\": func(base any, spanType string, labels bool) any { var o []%sOption; if spanType != \"\" { o = append(o, %sWithSpanType(spanType)) }; if labels { o = append(o, %sWithUsingSetLabel()) }; var x %s = New%s(base.(%s), o...); return x },\n",
				t.Dec, t.Dec, t.Dec, ifn, t.Dec, ifn)
		}
	}
	body.WriteString("\t\t},\n\t\tDec: map[string]string{")
	for _, t := range ts {
		fmt.Fprintf(&body, "%q: %q, ", t.Tmpl, t.Dec)
	}
	body.WriteString("},\n\t\tVars: map[string]map[string]string{")
	for _, t := range ts {
		fmt.Fprintf(&body, "%q: {", t.Tmpl)
		for _, v := range t.Vars {
			k, x, _ := strings.Cut(v, "=")
			fmt.Fprintf(&body, "%q: %q, ", k, x)
		}
		body.WriteString("}, ")
	}
	body.WriteString("},\n\t})\n}\n\nvar _ time.Duration\nvar _ io.Writer\n")

	var h strings.Builder
	fmt.Fprintf(&h, "package %s\n\nimport (\n", pkgName)
	var ps []string
	for p := range imps {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		fmt.Fprintf(&h, "\t%s %q\n", imps[p], p)
	}
	for e := range extra {
		fmt.Fprintf(&h, "\t%s\n", e)
	}
	h.WriteString(")\n\n")
	return h.String() + body.String()
}

func packageClause(file string) string {
	b, err := os.ReadFile(file)
	core.Must(err, "generated file")
	for _, l := range strings.Split(string(b), "\n") {
		if n, ok := strings.CutPrefix(l, "package "); ok {
			return strings.TrimSpace(n)
		}
	}
	core.Fail("%s has no package clause", file)
	return ""
}
