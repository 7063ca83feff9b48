package checks

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"

	"verifharness/internal/core"
	"verifharness/internal/progen"
)

// probeTemplate declares a type that has the methods of the model and dumps
// the model itself.
const probeTemplate = `
{{- $d := printf "ZzModel%s" .Interface.Name -}}
{{- $i := printf "%s%s" .Interface.Type .Interface.Generics.Params -}}
const zzJSON{{.Interface.Name}} = {{toJson .Interface | printf "%q"}}

const zzVars{{.Interface.Name}} = {{toJson .Vars | printf "%q"}}

type {{$d}}{{.Interface.Generics.Types}} struct{}
{{range $m := .Interface.Methods}}
func (_d {{$d}}{{$.Interface.Generics.Params}}) {{$m.Declaration}} { for {} }
{{end}}
func zzCheck{{.Interface.Name}}{{.Interface.Generics.Types}}() {
	var _ {{$i}} = {{$d}}{{.Interface.Generics.Params}}{}
{{range $m := .Interface.Methods}}
	var _ func({{$i}}, {{range $m.Params}}{{.Type}}, {{end}}) ({{range $m.Results}}{{.Type}}, {{end}}) = ({{$i}}).{{$m.Name}}
{{end}}
}
`

// model is what the probe template dumps.
type model struct {
	Name, Type string
	Generics   struct{ Types, Params string }
	Methods    map[string]modelMethod
}

type modelMethod struct {
	Doc, Comment    []string
	Name            string
	Params, Results []modelParam
	ReturnsError    bool
	AcceptsContext  bool
}

type modelParam struct {
	Name, Type string
	Variadic   bool
}

// probed is one interface with the model gowrap gave to the template.
type probed struct {
	Pkg     string // import path of the source
	Name    string
	Where   string // cross or same
	Out     string // file, relative to the module
	OutPkg  string
	Feats   []string
	Local   bool
	Generic bool
	Res     core.Result
	Model   *model
	Vars    map[string]any
	Compile string // errors of the compiler in the output
	Source  string // text of the module's files, for replays
}

func (p *probed) key() string { return p.Where + "/" + p.Pkg + "." + p.Name }

// consts reads the string constants a generated file declares.
func consts(src string) map[string]string {
	f, err := parser.ParseFile(token.NewFileSet(), "out.go", src, 0)
	if err != nil {
		return nil
	}
	out := map[string]string{}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.CONST {
			continue
		}
		for _, s := range g.Specs {
			v := s.(*ast.ValueSpec)
			for i, n := range v.Names {
				if i < len(v.Values) {
					if l, ok := v.Values[i].(*ast.BasicLit); ok && l.Kind == token.STRING {
						if t, err := strconv.Unquote(l.Value); err == nil {
							out[n.Name] = t
						}
					}
				}
			}
		}
	}
	return out
}

// probeRandom makes a module of random packages and runs the probe template
// on all their interfaces.
func probeRandom(c *core.Ctx, n int, o progen.Opts, seedMul int64) (*core.Mod, []*probed) {
	dir := c.Dir("probe")
	core.Write(dir, map[string]string{"go.mod": "module probe\n\ngo 1.24\n", "probe.tmpl": probeTemplate})
	var ps []*probed
	var srcs []string
	for i := 0; i < n; i++ {
		r := rand.New(rand.NewSource(c.Seed*seedMul + int64(i)))
		oo := o
		if oo.Interfaces == 0 {
			oo.Interfaces = 6
		}
		oo.Local = o.Local && i%2 == 1
		path := fmt.Sprintf("probe/p%d", i)
		m := progen.New(r, path, oo)
		var text strings.Builder
		fs := map[string]string{}
		var names []string
		for f, b := range m.Files {
			if f != "go.mod" {
				fs[fmt.Sprintf("p%d/%s", i, f)] = b
				names = append(names, f)
			}
		}
		sort.Strings(names)
		for _, f := range names {
			if strings.Contains(f, "iface") {
				text.WriteString("// " + f + "\n" + m.Files[f] + "\n")
			}
		}
		core.Write(dir, fs)
		srcs = append(srcs, path+"/src")
		for f, k := range m.Feats {
			c.Count("feature_"+strings.ReplaceAll(f, "-", "_"), k)
		}
		for k, it := range m.Ifaces {
			for _, where := range []string{"cross", "same"} {
				if where == "cross" && it.Local {
					continue
				}
				p := &probed{Pkg: path + "/src", Name: it.Name, Where: where, Feats: it.Feats, Local: it.Local, Generic: it.Generic, Source: text.String()}
				p.Out, p.OutPkg = fmt.Sprintf("p%d/dst_%d/out.go", i, k), fmt.Sprintf("probe/p%d/dst_%d", i, k)
				if where == "same" {
					p.Out, p.OutPkg = fmt.Sprintf("p%d/src/zz_%d.go", i, k), p.Pkg
				}
				ps = append(ps, p)
			}
		}
	}
	l := core.Load(core.GoRoot, dir, srcs...)
	for _, s := range srcs {
		if e := l.Err(s); e != "" {
			core.Fail("a source package of the harness does not compile: %s: %s", s, e)
		}
	}
	runProbes(c, dir, ps)
	var pats []string
	seen := map[string]bool{}
	for _, p := range ps {
		if !seen[p.OutPkg] {
			seen[p.OutPkg] = true
			pats = append(pats, p.OutPkg)
		}
	}
	mod := core.Load(core.GoRoot, dir, append(pats, srcs...)...)
	assign(mod, ps)
	return mod, ps
}

// runProbes generates with the probe template.
func runProbes(c *core.Ctx, dir string, ps []*probed) {
	c.Gowrap()
	var order []string
	groups := map[string][]*probed{} // outputs in one package are written one after the other
	for _, p := range ps {
		k := p.Pkg
		if strings.HasPrefix(p.OutPkg, "decmod/") {
			k = p.OutPkg
		}
		if groups[k] == nil {
			order = append(order, k)
		}
		groups[k] = append(groups[k], p)
	}
	one := func(p *probed) {
		p.Res = c.Gen(dir, "gen", "-g", "-p", p.Pkg, "-i", p.Name, "-t", "probe.tmpl", "-o", "./"+p.Out)
		c.Count("generations", 1)
		if p.Res.Code != 0 {
			return
		}
		b, err := os.ReadFile(filepath.Join(dir, p.Out))
		if err != nil {
			p.Compile = "gowrap exited with status 0 and wrote no file"
			return
		}
		cs := consts(string(b))
		var m model
		if js, ok := cs["zzJSON"+p.Name]; ok && json.Unmarshal([]byte(js), &m) == nil {
			p.Model = &m
			_ = json.Unmarshal([]byte(cs["zzVars"+p.Name]), &p.Vars)
		} else {
			p.Compile = "the output does not parse or lacks what the template wrote:\n" + core.Clip(string(b), 1500)
		}
	}
	core.Parallel(len(order), func(i int) {
		for _, p := range groups[order[i]] {
			one(p)
		}
	})
}

// assign attributes compile errors to the outputs.
func assign(mod *core.Mod, ps []*probed) {
	for _, p := range ps {
		e := mod.Err(p.OutPkg)
		if e == "" || p.Res.Code != 0 || p.Compile != "" {
			continue
		}
		if p.Where == "cross" && mod.Err(p.Pkg) == "" {
			p.Compile = e
			continue
		}
		for _, l := range strings.Split(e, "\n") {
			if strings.Contains(l, p.Out) {
				p.Compile += l + "\n"
			}
		}
	}
}

// lookup gives the interface of a probe as go/types sees it.
func lookup(mod *core.Mod, p *probed) (types.Object, *types.Interface, error) {
	pkg, err := mod.Import(p.Pkg)
	if err != nil || pkg.Scope().Lookup(p.Name) == nil {
		pkg, err = mod.Source(p.Pkg)
		if err != nil {
			return nil, nil, err
		}
	}
	obj := pkg.Scope().Lookup(p.Name)
	if obj == nil {
		return nil, nil, fmt.Errorf("%s has no %s", p.Pkg, p.Name)
	}
	it, ok := obj.Type().Underlying().(*types.Interface)
	if !ok {
		return nil, nil, fmt.Errorf("%s.%s is not an interface", p.Pkg, p.Name)
	}
	return obj, it, nil
}

// field finds the syntax of a method.
type fields struct {
	mu    sync.Mutex
	files map[string]*ast.File
	fset  *token.FileSet
}

func newFields() *fields { return &fields{files: map[string]*ast.File{}, fset: token.NewFileSet()} }

func (f *fields) find(mod *core.Mod, m *types.Func) *ast.Field {
	pos := mod.Fset.Position(m.Pos())
	if !pos.IsValid() || pos.Filename == "" {
		return nil
	}
	name := strings.Replace(pos.Filename, "$GOROOT", core.GoRoot, 1)
	f.mu.Lock()
	defer f.mu.Unlock()
	file, ok := f.files[name]
	if !ok {
		var err error
		file, err = parser.ParseFile(f.fset, name, nil, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			file = nil
		}
		f.files[name] = file
	}
	if file == nil {
		return nil
	}
	var found *ast.Field
	n := 0
	ast.Inspect(file, func(x ast.Node) bool {
		it, ok := x.(*ast.InterfaceType)
		if !ok {
			return true
		}
		for _, fl := range it.Methods.List {
			for _, nm := range fl.Names {
				if nm.Name == m.Name() && f.fset.Position(nm.Pos()).Line == pos.Line {
					found = fl
					n++
				}
			}
		}
		return true
	})
	if n != 1 {
		return nil
	}
	return found
}

func replay(p *probed) map[string]string {
	out := map[string]string{"source.txt": p.Source, "case.txt": fmt.Sprintf("interface %s of %s, output %s, features %v\nexit %d\n%s", p.Name, p.Pkg, p.Out, p.Feats, p.Res.Code, p.Res.Err)}
	if p.Model != nil {
		b, _ := json.MarshalIndent(p.Model, "", " ")
		out["model.json"] = string(b)
	}
	return out
}

func methodNamesOf(it *types.Interface) []string {
	var out []string
	for i := 0; i < it.NumMethods(); i++ {
		out = append(out, it.Method(i).Name())
	}
	sort.Strings(out)
	return out
}

// checkMethodSet compares the model with go/types.
func checkMethodSet(c *core.Ctx, mod *core.Mod, p *probed) {
	if p.Res.Code != 0 {
		c.Finding("refused/"+p.key(), fmt.Sprintf("gowrap refuses %s of %s (%v):\n%s", p.Name, p.Pkg, p.Feats, core.Clip(p.Res.Err, 1200)), replay(p))
		return
	}
	obj, it, err := lookup(mod, p)
	core.Must(err, "types of the source")
	if p.Model == nil {
		c.Finding("output/"+p.key(), p.Compile, replay(p))
		return
	}
	var got []string
	for k, m := range p.Model.Methods {
		if k != m.Name {
			c.Finding("name/"+p.key(), fmt.Sprintf("the model has the method %q under the name %q", m.Name, k), replay(p))
		}
		got = append(got, k)
	}
	sort.Strings(got)
	if want := methodNamesOf(it); strings.Join(got, " ") != strings.Join(want, " ") {
		c.Finding("methods/"+p.key(), fmt.Sprintf("the method set of %s is\n  %v\nthe model has\n  %v", p.Name, want, got), replay(p))
		return
	}
	if p.Model.Name != p.Name {
		c.Finding("ifname/"+p.key(), fmt.Sprintf("the model calls the interface %q, it is %q", p.Model.Name, p.Name), replay(p))
	}
	if p.Compile != "" {
		c.Finding("types/"+p.key(), fmt.Sprintf("the declarations of the model of %s (%v) are not those of the interface:\n%s", p.Name, p.Feats, core.Clip(p.Compile, 1500)), replay(p))
		return
	}
	sigs := ""
	for i := 0; i < it.NumMethods(); i++ {
		f := it.Method(i)
		m := p.Model.Methods[f.Name()]
		sig := f.Type().(*types.Signature)
		c.Count("methods", 1)
		sigs += f.Name() + sig.String()
		if len(m.Params) != sig.Params().Len() || len(m.Results) != sig.Results().Len() {
			c.Finding("arity/"+p.key(), fmt.Sprintf("%s is %s, the model has %d parameters and %d results", f.Name(), sig, len(m.Params), len(m.Results)), replay(p))
			continue
		}
		for k, q := range m.Params {
			c.Count("types", 1)
			v := sig.Variadic() && k == sig.Params().Len()-1
			if q.Variadic != v {
				c.Finding("variadic/"+p.key(), fmt.Sprintf("parameter %d of %s%s: Variadic is %v", k, f.Name(), sig, q.Variadic), replay(p))
			}
		}
		for k, q := range m.Results {
			c.Count("types", 1)
			if q.Variadic {
				c.Finding("variadic/"+p.key(), fmt.Sprintf("result %d of %s is Variadic", k, f.Name()), replay(p))
			}
		}
	}
	// the declared type implements the interface (when it is in the same
	// universe of types: generics are checked by instantiation elsewhere)
	if !p.Generic && p.Where == "cross" {
		out, err := mod.Import(p.OutPkg)
		if err != nil && mod.Err(p.Pkg) != "" {
			c.Count("outputs_of_broken_packages", 1)
			return
		}
		core.Must(err, "types of the output")
		t := out.Scope().Lookup("ZzModel" + p.Name)
		if t == nil || !types.Implements(t.Type(), it) {
			c.Finding("implements/"+p.key(), "the type that has the methods of the model does not implement the interface", replay(p))
		}
	}
	c.Eval(p.Where + obj.Name() + sigs)
	c.Sample(map[string]any{"interface": p.key(), "features": p.Feats, "signatures": core.Clip(sigs, 600)})
}

// checkNames compares names, flags and documentation with the source.
func checkNames(c *core.Ctx, mod *core.Mod, fs *fields, p *probed) {
	if p.Model == nil {
		if p.Res.Code == 0 {
			c.Finding("output/"+p.key(), p.Compile, replay(p))
		}
		return
	}
	obj, it, err := lookup(mod, p)
	core.Must(err, "types of the source")
	var tpars []string
	if n, ok := obj.Type().(*types.Named); ok {
		for i := 0; i < n.TypeParams().Len(); i++ {
			tpars = append(tpars, n.TypeParams().At(i).Obj().Name())
		}
	}
	for i := 0; i < it.NumMethods(); i++ {
		f := it.Method(i)
		m, ok := p.Model.Methods[f.Name()]
		sig := f.Type().(*types.Signature)
		if !ok || len(m.Params) != sig.Params().Len() || len(m.Results) != sig.Results().Len() {
			c.Count("skipped_methods", 1) // C02 is about these
			continue
		}
		c.Count("methods", 1)
		bad := func(id, format string, a ...any) {
			c.Finding(id+"/"+p.key()+"."+f.Name(), fmt.Sprintf("%s%s of %s: ", f.Name(), strings.TrimPrefix(sig.String(), "func"), p.Name)+fmt.Sprintf(format, a...)+fmt.Sprintf("\nthe model: %+v", m), replay(p))
		}
		var srcNames, names []string
		for k := 0; k < sig.Params().Len(); k++ {
			srcNames = append(srcNames, sig.Params().At(k).Name())
			names = append(names, m.Params[k].Name)
		}
		for k := 0; k < sig.Results().Len(); k++ {
			srcNames = append(srcNames, sig.Results().At(k).Name())
			names = append(names, m.Results[k].Name)
		}
		count := map[string]int{}
		for _, n := range names {
			count[n]++
		}
		for k, n := range names {
			if !token.IsIdentifier(n) || n == "_" {
				bad("invalid", "the name %q is not usable", n)
			}
			if slices.Contains(tpars, n) {
				bad("typeparam", "%q is the name of a type parameter", n)
			}
			if count[n] > 1 {
				bad("duplicate", "the name %q is used %d times", n, count[n])
			}
			s := srcNames[k]
			if s == "" || s == "_" || s == "ctx" || s == "err" || slices.Contains(tpars, s) {
				c.Count("generated_names", 1)
				continue
			}
			isCtx := k == 0 && m.AcceptsContext
			isErr := k == len(names)-1 && m.ReturnsError
			if n != s && !isCtx && !isErr && count[s] == 0 && !genLike.MatchString(s) {
				bad("renamed", "the source name %q became %q although nothing else is called %q", s, n, s)
			} else {
				c.Count("kept_names", 1)
			}
		}
		field := fs.find(mod, f)
		var ft *ast.FuncType
		if field != nil {
			ft, _ = field.Type.(*ast.FuncType)
		}
		// context
		wantCtx := sig.Params().Len() > 0 && types.Unalias(sig.Params().At(0).Type()).String() == "context.Context" && !(sig.Variadic() && sig.Params().Len() == 1)
		judged := ft == nil || len(ft.Params.List) == 0
		if !judged {
			_, judged = ast.Unparen(ft.Params.List[0].Type).(*ast.SelectorExpr)
			judged = judged || !wantCtx
			// a type parameter is not an alias: what it stands for is known
			if o := f.Origin().Type().(*types.Signature); !judged && o.Params().Len() > 0 {
				_, judged = o.Params().At(0).Type().(*types.TypeParam)
			}
		}
		if judged && m.AcceptsContext != wantCtx {
			bad("context", "AcceptsContext is %v", m.AcceptsContext)
		}
		if wantCtx && m.AcceptsContext {
			c.Count("contexts", 1)
			if m.Params[0].Name != "ctx" {
				bad("ctxname", "the context is called %q", m.Params[0].Name)
			}
		}
		// error
		nr := sig.Results().Len()
		wantErr := nr > 0 && sig.Results().At(nr-1).Type() == types.Universe.Lookup("error").Type()
		judged = ft == nil || ft.Results == nil || nr == 0
		if !judged {
			_, judged = ast.Unparen(ft.Results.List[len(ft.Results.List)-1].Type).(*ast.Ident)
			judged = judged || !wantErr
		}
		if judged && m.ReturnsError != wantErr {
			bad("error", "ReturnsError is %v", m.ReturnsError)
		}
		if wantErr && m.ReturnsError {
			c.Count("errors", 1)
			if m.Results[nr-1].Name != "err" {
				bad("errname", "the error is called %q", m.Results[nr-1].Name)
			}
		}
		if field != nil {
			if want := commentTexts(field.Doc); strings.Join(want, "\n") != strings.Join(m.Doc, "\n") || len(want) != len(m.Doc) {
				bad("doc", "the documentation is %q, the model has %q", want, m.Doc)
			} else if len(want) > 0 {
				c.Count("docs", 1)
			}
			if want := commentTexts(field.Comment); strings.Join(want, "\n") != strings.Join(m.Comment, "\n") || len(want) != len(m.Comment) {
				bad("comment", "the trailing comment is %q, the model has %q", want, m.Comment)
			} else if len(want) > 0 {
				c.Count("comments", 1)
			}
		}
		c.Eval(strings.Join(srcNames, ",") + sig.String())
		c.Sample(map[string]any{"method": p.key() + "." + f.Name(), "source_names": srcNames, "model_names": names, "ctx": m.AcceptsContext, "err": m.ReturnsError})
	}
}

// genLike are the names that may collide with generated ones
var genLike = regexp.MustCompile(`^\pL+[0-9]+$`)

func commentTexts(g *ast.CommentGroup) []string {
	var out []string
	if g != nil {
		for _, l := range g.List {
			out = append(out, l.Text)
		}
	}
	return out
}

var realPackages = []string{"io", "fmt", "net", "net/http", "sort", "hash", "io/fs", "context", "crypto", "crypto/cipher", "crypto/elliptic", "database/sql", "database/sql/driver", "encoding", "encoding/json", "encoding/xml",
	"encoding/gob", "error", "expvar", "flag", "go/ast", "go/types", "go/constant", "image", "image/draw", "mime/multipart", "net/rpc", "net/smtp", "net/http/cookiejar", "net/http/httputil", "os", "reflect", "regexp/syntax", "runtime", "container/heap",
	"sync", "text/template/parse", "testing", "time", "debug/dwarf", "hash/maphash", "log/slog", "math/rand", "math/rand/v2", "crypto/tls", "encoding/asn1", "text/tabwriter", "compress/flate", "archive/zip", "go/doc", "unicode",
	"github.com/sirupsen/logrus", "github.com/opentracing/opentracing-go", "github.com/opentracing/opentracing-go/ext", "go.opencensus.io/trace", "github.com/prometheus/client_golang/prometheus", "google.golang.org/grpc", "go.elastic.co/apm/v2", "github.com/twitchtv/twirp",
	"google.golang.org/grpc/credentials", "google.golang.org/grpc/balancer", "google.golang.org/grpc/resolver", "google.golang.org/grpc/encoding", "google.golang.org/protobuf/reflect/protoreflect", "google.golang.org/protobuf/proto"}

// probeReal runs the probe template on the interfaces of real packages.
func probeReal(c *core.Ctx, max int) (*core.Mod, []*probed) {
	dir := c.Dir("real")
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(core.Verif, "harness", "decmod", f+".txt"))
		core.Must(err, f)
		core.Write(dir, map[string]string{f: string(b)})
	}
	core.Must(filepath.Walk(filepath.Join(core.Verif, "harness/decmod/otelstub"), func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			rel, _ := filepath.Rel(filepath.Join(core.Verif, "harness/decmod"), p)
			b, _ := os.ReadFile(p)
			core.Write(dir, map[string]string{strings.TrimSuffix(rel, ".txt"): string(b)})
		}
		return err
	}), "stub")
	core.Write(dir, map[string]string{"probe.tmpl": probeTemplate})
	r := rand.New(rand.NewSource(c.Seed * 31))
	pkgs := append([]string(nil), realPackages...)
	if !c.Thorough() {
		r.Shuffle(len(pkgs), func(i, j int) { pkgs[i], pkgs[j] = pkgs[j], pkgs[i] })
		pkgs = pkgs[:14]
		for _, p := range []string{"io", "net", "io/fs", "database/sql/driver"} {
			has := false
			for _, q := range pkgs {
				has = has || p == q
			}
			if !has {
				pkgs = append(pkgs, p)
			}
		}
	}
	src := core.Load(core.GoRoot, dir, pkgs...)
	var ps []*probed
	for _, path := range pkgs {
		if src.Err(path) != "" {
			c.Count("real_packages_not_installed", 1)
			continue
		}
		pkg, err := src.Import(path)
		if err != nil {
			continue
		}
		c.Count("real_packages", 1)
		for _, n := range pkg.Scope().Names() {
			o, ok := pkg.Scope().Lookup(n).(*types.TypeName)
			if !ok || !o.Exported() {
				continue
			}
			it, ok := o.Type().Underlying().(*types.Interface)
			if !ok || it.NumMethods() == 0 || !it.IsMethodSet() {
				continue
			}
			if nm, ok := types.Unalias(o.Type()).(*types.Named); ok && nm.TypeParams().Len() > 0 {
				continue
			}
			p := &probed{Pkg: path, Name: n, Where: "cross"}
			p.Local = !nameable(it)
			ps = append(ps, p)
		}
	}
	if len(ps) > max {
		r.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
		ps = ps[:max]
	}
	var pats []string
	for i, p := range ps {
		p.Out, p.OutPkg = fmt.Sprintf("dst_%d/out.go", i), fmt.Sprintf("decmod/dst_%d", i)
	}
	runProbes(c, dir, ps)
	for _, p := range ps {
		if p.Res.Code == 0 {
			pats = append(pats, p.OutPkg)
		}
		pats = append(pats, p.Pkg)
	}
	mod := core.Load(core.GoRoot, dir, pats...)
	assign(mod, ps)
	return mod, ps
}

// nameable tells whether an interface can be implemented in another package.
func nameable(it *types.Interface) bool {
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if !m.Exported() {
			return false
		}
		if !nameableType(m.Type(), map[types.Type]bool{}) {
			return false
		}
	}
	return true
}

func nameableType(t types.Type, seen map[types.Type]bool) bool {
	if seen[t] {
		return true
	}
	seen[t] = true
	tuple := func(t *types.Tuple) bool {
		for i := 0; i < t.Len(); i++ {
			if !nameableType(t.At(i).Type(), seen) {
				return false
			}
		}
		return true
	}
	obj := func(o *types.TypeName, args *types.TypeList) bool {
		if o.Pkg() != nil && (!o.Exported() || strings.Contains("/"+o.Pkg().Path()+"/", "/internal/") || strings.HasPrefix(o.Pkg().Path(), "vendor/")) {
			return false
		}
		for i := 0; args != nil && i < args.Len(); i++ {
			if !nameableType(args.At(i), seen) {
				return false
			}
		}
		return true
	}
	switch t := t.(type) {
	case *types.Alias:
		return obj(t.Obj(), t.TypeArgs())
	case *types.Named:
		return obj(t.Obj(), t.TypeArgs())
	case *types.Pointer:
		return nameableType(t.Elem(), seen)
	case *types.Slice:
		return nameableType(t.Elem(), seen)
	case *types.Array:
		return nameableType(t.Elem(), seen)
	case *types.Chan:
		return nameableType(t.Elem(), seen)
	case *types.Map:
		return nameableType(t.Key(), seen) && nameableType(t.Elem(), seen)
	case *types.Signature:
		return tuple(t.Params()) && tuple(t.Results())
	case *types.Struct:
		for i := 0; i < t.NumFields(); i++ {
			if !t.Field(i).Exported() || !nameableType(t.Field(i).Type(), seen) {
				return false
			}
		}
	case *types.Interface:
		for i := 0; i < t.NumMethods(); i++ {
			if !t.Method(i).Exported() || !nameableType(t.Method(i).Type(), seen) {
				return false
			}
		}
	}
	return true
}

func init() {
	opts := progen.Opts{Embeds: true, Hostile: true, Shadow: true, Local: true, Generics: true}
	reg("C02", func(c *core.Ctx) {
		c.Rule = "a case is one interface decorated by the probe template in its own or another package; non-trivial: distinct method set with its signatures"
		c.Assume = []string{"go/types and the Go compiler say what the source means; dot imports and shadowed package names are outside the grammar"}
		mod, ps := probeRandom(c, c.Pick(30, 200), opts, 104729)
		for _, p := range ps {
			checkMethodSet(c, mod, p)
		}
		rm, rp := probeReal(c, c.Pick(150, 2000))
		for _, p := range rp {
			if p.Local {
				continue // C05
			}
			c.Count("real_interfaces", 1)
			checkMethodSet(c, rm, p)
		}
		if c.Violations() == 0 {
			c.Need("methods", 500)
			c.Need("real_interfaces", 30)
			c.Need("types", 1500)
		}
	})
	reg("C03", func(c *core.Ctx) {
		c.Rule = "a case is one method of the model of one interface compared with the source; non-trivial: distinct source names and signature"
		c.Assume = []string{"go/types and the syntax tree say what the source means"}
		o := opts
		o.MaxMethods = 7
		mod, ps := probeRandom(c, c.Pick(30, 200), o, 7211)
		fs := newFields()
		for _, p := range ps {
			checkNames(c, mod, fs, p)
		}
		rm, rp := probeReal(c, c.Pick(100, 2000))
		for _, p := range rp {
			if !p.Local {
				checkNames(c, rm, fs, p)
			}
		}
		if c.Violations() == 0 {
			c.Need("methods", 500)
			c.Need("kept_names", 300)
			c.Need("generated_names", 300)
			c.Need("contexts", 100)
			c.Need("errors", 100)
			c.Need("docs", 100)
			c.Need("comments", 20)
		}
	})
}
