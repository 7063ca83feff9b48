// Package progen writes random Go source modules that contain interfaces for
// gowrap to decorate. It produces plain Go text: the Go compiler, not this
// package, is the ground truth about what the text means.
package progen

import (
	"fmt"
	"math/rand"
	"regexp"
	"slices"
	"sort"
	"strings"
	"unicode"
)

// Module is one generated source module.
type Module struct {
	Path   string            // module path
	Files  map[string]string // relative file name -> contents
	Ifaces []Iface           // decoration targets
	Feats  map[string]int    // how often every grammar feature was used
}

// Iface is a decoration target
type Iface struct {
	Name    string
	Pkg     string   // directory of the package in the module ("src")
	Generic bool     // has type parameters
	TParams []string // names
	Local   bool     // uses unexported types or methods: decoratable in its own package only
	Feats   []string
}

// Opts selects parts of the grammar.
type Opts struct {
	Interfaces int
	Generics   bool // some targets have type parameters
	Local      bool // some targets use unexported names
	Embeds     bool
	Simple     bool // only types rt can fabricate well
	NoNameless bool
	MaxMethods int
	// Hostile adds parameter names that collide with what gowrap reserves or generates.
	Hostile bool
	// AllLocal makes every target a candidate for unexported names.
	AllLocal bool
	Shadow   bool // and names of packages, types and predeclared identifiers
	SrcDir   string
	Drop     map[string]bool // features switched off
}

type file struct {
	imports map[string]string // path -> name as written ("" when not named)
	body    strings.Builder
}

type gen struct {
	r     *rand.Rand
	o     Opts
	m     *Module
	f     *file
	feats map[string]bool // features of the current interface
	tpars []string
	local bool
	mod   string
}

// New generates a module from a PRNG.
func New(r *rand.Rand, path string, o Opts) *Module {
	if o.MaxMethods == 0 {
		o.MaxMethods = 4
	}
	if o.SrcDir == "" {
		o.SrcDir = "src"
	}
	g := &gen{r: r, o: o, mod: path}
	g.m = &Module{Path: path, Files: map[string]string{}, Feats: map[string]int{}}
	g.support()

	names := ifaceNames(r, o.Interfaces)
	if o.AllLocal {
		for i := range names {
			if r.Intn(10) == 0 {
				names[i] = []string{"x", "_", "é", "世", "ǅ"}[r.Intn(5)] + names[i]
			}
		}
	}
	// the targets are spread over two files with different import styles
	for fi := 0; fi < 2; fi++ {
		g.f = &file{imports: map[string]string{}}
		if g.p(1, 4) && g.on("dot-import") {
			g.f.imports[g.mod+"/dot-dep"] = "."
			g.f.body.WriteString("var _ DT\n\n")
			g.m.Feats["dot-import-file"]++
		}
		for i, n := range names {
			if i%2 != fi {
				continue
			}
			g.iface(n)
		}
		g.m.Files[fmt.Sprintf("%s/iface%d.go", o.SrcDir, fi)] = g.f.render("srcpkg")
	}
	return g.m
}

func ifaceNames(r *rand.Rand, n int) []string {
	base := []string{"Store", "UserRepo", "HTTPClient", "X", "ID0Cache", "Queue_Svc", "Reader", "Connector", "Ünit", "Svc2", "IOBroker", "ABar"}
	r.Shuffle(len(base), func(i, j int) { base[i], base[j] = base[j], base[i] })
	var out []string
	for i := 0; i < n; i++ {
		b := base[i%len(base)]
		if i >= len(base) {
			b += fmt.Sprint(i)
		}
		out = append(out, b)
	}
	return out
}

// support writes the fixed packages targets refer to.
func (g *gen) support() {
	s := g.o.SrcDir
	g.m.Files["go.mod"] = "module " + g.mod + "\n\ngo 1.24\n"
	g.types()
	g.m.Files[s+"/emb.go"] = `package srcpkg

import (
	"time"

	"` + g.mod + `/dep"
)

// E2 lives in another file with imports of its own
type E2 interface {
	E2Get(d time.Duration, t LT) (when time.Time, err error)
	E3
}

type E3 interface {
	E3Do(*LT, ...LG[int])
}

type EG[T any] interface {
	EGGet(key string) (T, error)
	EGPut(v T) error
}

type EG2[K comparable, V any] interface {
	EG2Do(k K, v V) (V, K)
}

type EA = EG[int]
type ER EG[map[string]dep.T]
type EP (E3)
type EGA[T any] = EG[T]
type EGR[T any] EG[[]T]
type EGN[T any] interface {
	interface {
		EGNDo(v T, more ...[]T) (Ürt, *T)
		interface{ EGNStop() () }
	}
}
type EGNS EGN[*LT]

// the type parameters have names of other types and of each other's
type EGH[LT any] interface {
	EGHDo(v LT, s *LStr) (LG[LT], Ürt)
	EGHAll(...func(LT) LStr) map[string]LT
}
type EGS[A, B any] interface {
	EGSDo(a A, b B) (LG2[string, B], A)
	EGSMore(b []B, a ...*A) error
}
type EGT[B, A any] interface{ EGS[B, A] }
type EGV[LStr comparable, LT any] interface {
	EGH[LG[LStr]]
	EGSX[LT, LStr]
}
// names that differ in case only
type EGC[K comparable, k any] interface {
	EGCDo(K, k) map[K]k
	EGCAll(...k) (K, []Any)
}
type EGSX[LStr any, T comparable] interface{ EGSXDo(LStr, map[T]LStr, LT) T }

type eLocal interface {
	hidden(x lt) lt
}
`
	g.m.Files["dep/dep.go"] = `package dep

import "` + g.mod + `/odd-dir"

type T struct{ X int }
type G[A any] struct{ V A }
type G2[A comparable, B any] struct{ M map[A]B }
type Fn func(int) string
type Ord interface{ ~int | ~string | ~float64 }

type I interface {
	DepCall(t T, p *T) (G[int], error)
	Nested
}

type Context interface{ Done() }

type Nested interface {
	NestedCall(o []T) map[string]T
}

type GI[T any] interface {
	GIGet(id int) T
}

type Odd interface {
	OddCall() oddpkg.O
}

type GAL = GI[T]
type GRD GI[*T]
type GA[B any] = GI[[]B]
type GA2[B, C any] interface {
	GI[B]
	GA2Put(c C, o oddpkg.O) (err error)
}

const Len = 3
`
	g.m.Files["dot-dep/dot.go"] = `package dotdep

import "` + g.mod + `/dep"

type DT struct{ X int }
type DG[A any] struct{ V A }
type DI interface {
	DotCall(t DT, p *DT, d dep.T) (DG[int], error)
}
type DGI[T any] interface{ DotGen(T) *DT }

const DLen = 2
`
	g.m.Files["odd-dir/odd.go"] = `package oddpkg

type O struct{ S string }
type OE interface{ OECall(o O) error }
`
}

// types writes the declarations targets refer to: in one or several files,
// one by one or in groups, in any order.
func (g *gen) types() {
	decls := []string{
		"LT struct {\n\tA int\n\tB string\n\tc int\n}", "LI interface{ LIFoo(x int) string }", "LFn func(a int) error", "LStr string", "LG[T any] struct{ V T }",
		"LG2[K comparable, V any] struct{ M map[K]V }", "LAlias = dep.T", "LPtrAlias = *LT", "LGAlias[T any] = LG[T]", "Ürt struct{ S string }", "𝐀rt struct{ S string }",
		"lt struct{ n int }", "ürt2 struct{ n int }", "_lt struct{ n int }", "世T struct{ n int }", "ǅt struct{ n int }", "LHidden = lt", "Context struct{ V int }",
		"Num interface{ ~int | ~float64 }", "NumAlias = interface{ ~int | ~float64 }", "OrdAlias = dep.Ord", "Slice[T any] interface{ ~[]T }",
		// names that differ from predeclared ones in case only
		"Any struct{ V int }", "Comparable interface{ ~int | ~string }", "Int int64", "String []byte", "Error interface{ Failed() bool }", "Bool struct{ B bool }",
	}
	g.r.Shuffle(len(decls), func(i, j int) { decls[i], decls[j] = decls[j], decls[i] })
	names := []string{"types.go", "a0.go", "zz.go"}[:1+g.r.Intn(3)]
	bodies := make([]string, len(names))
	for len(decls) > 0 {
		n := 1
		if g.p(1, 3) {
			n = 1 + g.r.Intn(len(decls))
		}
		s := "type "
		if n > 1 || g.p(1, 4) {
			s += "(\n"
		}
		for _, d := range decls[:n] {
			if g.p(1, 4) {
				d = "// " + strings.Fields(d)[0] + " is declared here\n" + d
				if s == "type " {
					d = d[strings.Index(d, "\n")+1:]
				}
			}
			s += d + "\n"
		}
		if strings.HasPrefix(s, "type (") {
			s += ")\n"
		}
		decls = decls[n:]
		k := g.r.Intn(len(names))
		bodies[k] += s + "\n"
	}
	bodies[0] = "const N = 4\n\nconst hn = 2\n\nconst max = 3\n\nconst Bits uint8 = 2\n\nconst Text = \"text\"\n\ntype Size int\n\nvar Table [N]struct{ A, B int32 }\n\nvar _ = fmt.Sprint\n\n" + bodies[0]
	for i, n := range names {
		head := "package srcpkg\n\n"
		if i == 0 {
			head += "import \"fmt\"\n"
		}
		if strings.Contains(bodies[i], "dep.") {
			head += "import \"" + g.mod + "/dep\"\n"
		}
		g.m.Files[g.o.SrcDir+"/"+n] = head + "\n" + bodies[i]
	}
}

func (f *file) render(pkg string) string {
	var b strings.Builder
	b.WriteString("package " + pkg + "\n\n")
	paths := make([]string, 0, len(f.imports))
	for p := range f.imports {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	if len(paths) > 0 {
		b.WriteString("import (\n")
		for _, p := range paths {
			b.WriteString("\t" + f.imports[p] + " \"" + p + "\"\n")
		}
		b.WriteString(")\n\n")
	}
	b.WriteString(f.body.String())
	return b.String()
}

func (g *gen) feat(s string)       { g.feats[s] = true }
func (g *gen) p(num, den int) bool { return g.r.Intn(den) < num }
func (g *gen) on(s string) bool    { return !g.o.Drop[s] }

// imp makes sure the current file imports path and returns the qualifier.
func (g *gen) imp(path, def string, alts ...string) string {
	if n, ok := g.f.imports[path]; ok {
		if n == "" {
			return def
		}
		return n
	}
	name := ""
	if len(alts) > 0 && g.p(1, 4) {
		name = alts[g.r.Intn(len(alts))]
		g.feat("aliased-import")
	}
	g.f.imports[path] = name
	if name == "" {
		return def
	}
	return name
}

// odd imports the package whose directory is not named like it, sometimes by
// a name that differs from another import's in case only
func (g *gen) odd() string {
	p := g.mod + "/odd-dir"
	if n, ok := g.f.imports[p]; ok {
		return n
	}
	n := []string{"oddpkg", "oddpkg", "oddpkg", "Dep", "IO", "Time", "ODDPKG"}[g.r.Intn(7)]
	if n != "oddpkg" {
		g.feat("import-name-case")
	}
	g.f.imports[p] = n
	return n
}

func (g *gen) named() string {
	if len(g.tpars) > 0 && g.p(1, 3) {
		g.feat("typeparam")
		return g.tpars[g.r.Intn(len(g.tpars))]
	}
	opts := []func() string{
		func() string { return "LT" },
		func() string { return "LStr" },
		func() string {
			g.feat("predeclared-but-for-case")
			return []string{"Any", "Int", "String", "Error", "Bool"}[g.r.Intn(5)]
		},
		func() string { g.feat("non-ascii-type"); return []string{"Ürt", "𝐀rt"}[g.r.Intn(2)] },
		func() string {
			g.feat("local-alias")
			return []string{"LAlias", "LPtrAlias", "LGAlias[int]"}[g.r.Intn(3)]
		},
		func() string { g.feat("local-iface"); return "LI" },
		func() string { g.feat("local-func"); return "LFn" },
		func() string { return g.imp("time", "time", "tm") + ".Duration" },
		func() string { return g.imp("time", "time", "tm") + ".Time" },
		func() string { return g.imp("io", "io", "stdio") + ".Reader" },
		func() string { return g.imp("net/url", "url", "neturl") + ".Values" },
		func() string { g.feat("dep-type"); return g.imp(g.mod+"/dep", "dep", "depalias") + ".T" },
		func() string { g.feat("dep-func"); return g.imp(g.mod+"/dep", "dep", "depalias") + ".Fn" },
		func() string {
			g.feat("odd-package-name")
			return g.odd() + ".O"
		},
	}
	if g.f.imports[g.mod+"/dot-dep"] == "." {
		dot := func() string {
			g.feat("dot-type")
			return []string{"DT", "DG[LT]", "*DT", "[DLen]DT", "DG[DT]"}[g.r.Intn(5)]
		}
		opts = append(opts, dot, dot)
	}
	if g.local {
		g.feat("unexported-type")
		opts = append(opts, func() string { return "lt" }, func() string { return []string{"lt", "ürt2", "_lt", "世T", "ǅt"}[g.r.Intn(5)] })
		if g.o.AllLocal {
			opts = append(opts, func() string { return "LHidden" }, func() string { return "struct{ f int }" }, func() string { return "interface{ f(int) }" })
		}
	}
	return opts[g.r.Intn(len(opts))]()
}

var basics = []string{"int", "string", "bool", "error", "byte", "int64", "float64", "uint8", "rune", "any", "interface{}", "uintptr", "complex128", "int32"}

func (g *gen) cmpType(d int) string {
	return []string{"string", "int", "LStr", "[2]string", "*LT", "LI", "bool"}[g.r.Intn(7)]
}

// length returns a random constant expression that is a length of an array
func (g *gen) length(d int) string {
	g.feat("array-expr")
	opts := []string{"N", "N", "4", "Bits", "len(Text)", "len(Table)", "cap(Table)", "len([N]int{})", "len([...]Size{N, 2})", "'\\x03'", "0x_1", "N - 2"}
	if !g.local {
		g.feat("array-expr-away")
	} else {
		opts = append(opts, "hn", "max", "max")
	}
	if d <= 0 || g.p(1, 2) {
		if g.p(1, 5) {
			return g.imp(g.mod+"/dep", "dep", "depalias") + ".Len"
		}
		if g.p(1, 8) {
			return g.imp("unsafe", "unsafe") + []string{".Sizeof(LG[int8]{})", ".Offsetof(LT{}.B)", ".Sizeof(Size(N))"}[g.r.Intn(3)]
		}
		l := opts[g.r.Intn(len(opts))]
		if l == "hn" || l == "max" {
			g.feat("unexported-length")
		}
		return l
	}
	x := g.length(d - 1)
	switch g.r.Intn(7) {
	case 0:
		return "(" + x + ")"
	case 1:
		return "-(-int(" + x + "))"
	case 2:
		return "Size(" + x + ")%2 + N"
	case 3:
		return "int64(" + x + ")&1<<1 | 1"
	case 4:
		return "1 + int(" + x + ")%2*2"
	case 5:
		return "(^int(" + x + "))&3 + 1"
	}
	return "+N - int(" + x + ")&1"
}

// typ returns a random type expression
func (g *gen) typ(d int) string {
	if d <= 0 {
		if g.p(1, 2) {
			return basics[g.r.Intn(len(basics))]
		}
		return g.named()
	}
	switch k := g.r.Intn(22); k {
	case 0, 1, 2:
		return basics[g.r.Intn(len(basics))]
	case 3, 4, 5:
		return g.named()
	case 6, 7:
		g.feat("pointer")
		return "*" + g.typ(d-1)
	case 8, 9:
		g.feat("slice")
		return "[]" + g.typ(d-1)
	case 10:
		g.feat("array")
		return fmt.Sprintf("[%d]%s", 1+g.r.Intn(3), g.typ(d-1))
	case 11:
		if g.on("array-expr") && g.p(2, 3) {
			return "[" + g.length(2) + "]" + g.typ(d-1)
		}
		if g.on("array-const") {
			g.feat("array-imported-const")
			return "[" + g.imp(g.mod+"/dep", "dep", "depalias") + ".Len]" + g.typ(d-1)
		}
		return g.named()
	case 12, 13:
		g.feat("map")
		return "map[" + g.cmpType(d-1) + "]" + g.typ(d-1)
	case 14:
		g.feat("chan")
		t := g.typ(d - 1)
		if strings.HasPrefix(t, "<-chan") {
			if !g.on("chan-of-recv-chan") {
				return t
			}
			g.feat("chan-of-recv-chan")
			return "chan (" + t + ")"
		}
		return "chan " + t
	case 15:
		g.feat("chan-send")
		return "chan<- " + g.typ(d-1)
	case 16:
		g.feat("chan-recv")
		return "<-chan " + g.typ(d-1)
	case 17:
		g.feat("func-type")
		return "func" + g.sig(d-1)
	case 18:
		g.feat("struct-type")
		var fs []string
		for i := 0; i < 1+g.r.Intn(2); i++ {
			s := fmt.Sprintf("F%d %s", i, g.typ(d-1))
			if g.on("struct-tag") && g.p(1, 4) {
				g.feat("struct-tag")
				s += fmt.Sprintf(" `json:\"f%d,omitempty\"`", i)
			}
			fs = append(fs, s)
		}
		if g.p(1, 5) {
			g.feat("struct-embed")
			fs = append(fs, "*LT")
		}
		return "struct{ " + strings.Join(fs, "; ") + " }"
	case 19:
		g.feat("generic-instance")
		switch g.r.Intn(4) {
		case 0:
			return "LG[" + g.typ(d-1) + "]"
		case 1:
			return "LG2[" + g.cmpType(d-1) + ", " + g.typ(d-1) + "]"
		case 2:
			return g.imp(g.mod+"/dep", "dep", "depalias") + ".G[" + g.typ(d-1) + "]"
		default:
			return g.imp(g.mod+"/dep", "dep", "depalias") + ".G2[" + g.cmpType(d-1) + ", " + g.typ(d-1) + "]"
		}
	case 20:
		if g.on("iface-literal") {
			g.feat("iface-literal")
			return "interface{ Do" + g.sig(d-1) + " }"
		}
		return g.named()
	default:
		if g.on("paren") {
			g.feat("paren")
			return "(" + g.typ(d-1) + ")"
		}
		return g.named()
	}
}

// sig is the signature of a function type nested in another type
func (g *gen) sig(d int) string {
	var ps []string
	n := g.r.Intn(3)
	named := g.p(1, 2)
	for i := 0; i < n; i++ {
		t := g.typ(d)
		if i == n-1 && g.p(1, 4) {
			g.feat("nested-variadic")
			t = "..." + t
		}
		if named {
			nm := fmt.Sprintf("q%d", i)
			if g.p(1, 6) {
				g.feat("nested-blank-name")
				nm = "_"
			}
			t = nm + " " + t
		}
		ps = append(ps, t)
	}
	switch g.r.Intn(4) {
	case 0:
		return "(" + strings.Join(ps, ", ") + ")"
	case 1:
		return "(" + strings.Join(ps, ", ") + ") " + g.res(g.typ(d))
	case 2:
		return "(" + strings.Join(ps, ", ") + ") (" + g.typ(d) + ", error)"
	default:
		if g.p(1, 6) {
			g.feat("nested-blank-name")
			return "(" + strings.Join(ps, ", ") + ") (_ " + g.typ(d) + ", named " + g.typ(0) + ")"
		}
		return "(" + strings.Join(ps, ", ") + ") (named " + g.typ(d) + ")"
	}
}

// res parenthesises a single result whose text could be read as a result list
func (g *gen) res(t string) string {
	if strings.HasPrefix(t, "(") {
		return "(" + t + ")"
	}
	return t
}

var plainNames = []string{"a", "b", "id", "key", "value", "opts", "userName", "n1", "req", "filter", "полe", "p9", "limit"}
var hostileNames = []string{"err", "ctx", "r1", "s1", "i1", "e1", "p1", "m", "ch1", "f1", "st1", "result", "results", "params", "c1", "d1", "l1", "b1", "base", "impl", "i", "v", "ok", "method", "span", "d", "cancelFunc", "closesAt", "counter", "t1", "sa1", "sp1", "since", "ticker", "ch", "next", "res", "e", "now"}

func (g *gen) names(n int, taken map[string]bool) []string {
	var out []string
	for len(out) < n {
		var nm string
		switch {
		case g.o.Hostile && g.on("blank-name") && g.p(1, 8):
			g.feat("blank-name")
			out = append(out, "_")
			continue
		case g.o.Hostile && g.p(1, 3):
			nm = hostileNames[g.r.Intn(len(hostileNames))]
			if !g.on("name:" + nm) {
				continue
			}
			g.feat("hostile-name")
		case g.o.Shadow && g.p(1, 6):
			nm = shadowNames[g.r.Intn(len(shadowNames))]
			g.feat("shadowing-name")
		case len(g.tpars) > 0 && g.p(1, 12):
			g.feat("named-like-typeparam")
			nm = g.tpars[g.r.Intn(len(g.tpars))]
		default:
			nm = plainNames[g.r.Intn(len(plainNames))]
		}
		if len(out) > 0 && g.p(1, 10) {
			// differs from another one in case only
			if o := out[g.r.Intn(len(out))]; o != "_" {
				c := []rune(o)
				if c[0] = unicode.ToUpper(c[0]); string(c) != o && g.on("names-case") {
					g.feat("names-case")
					nm = string(c)
				}
			}
		}
		if taken[nm] {
			nm = fmt.Sprintf("%s%d", nm, len(taken))
			if taken[nm] {
				continue
			}
		}
		taken[nm] = true
		out = append(out, nm)
	}
	return out
}

var shadowNames = []string{"dep", "time", "io", "context", "string", "error", "int", "nil", "true", "len", "panic", "srcpkg", "_sourceSrcpkg", "iota", "byte", "any", "LT", "oddpkg", "stdctx", "_", "Ürt"}

type slot struct{ typ string }

func (g *gen) list(slots []string, named bool, taken map[string]bool) string {
	if !named {
		return strings.Join(slots, ", ")
	}
	ns := g.names(len(slots), taken)
	var parts []string
	for i := 0; i < len(slots); i++ {
		if i+1 < len(slots) && slots[i] == slots[i+1] && !strings.HasPrefix(slots[i+1], "...") && g.p(1, 2) {
			g.feat("grouped-names")
			parts = append(parts, ns[i])
			continue
		}
		parts = append(parts, ns[i]+" "+slots[i])
	}
	return strings.Join(parts, ", ")
}

// Method writes one method
func (g *gen) method(name string) string {
	var ps, rs []string
	depth := 2
	if g.p(1, 6) {
		depth = 3
	}
	only := g.p(1, 30)
	if only {
		g.feat("variadic-only")
		switch g.r.Intn(5) {
		case 0, 1:
			ps = append(ps, "..."+g.imp("context", "context", "stdctx")+".Context")
		default:
			ps = append(ps, "..."+[]string{"any", "interface{}", "error", "[]any"}[g.r.Intn(4)])
		}
	} else if g.p(1, 2) {
		g.feat("ctx")
		ps = append(ps, g.parens(g.imp("context", "context", "stdctx")+".Context", 20))
		if g.p(1, 8) {
			g.feat("two-contexts")
			ps = append(ps, ps[0])
		}
	} else if g.p(1, 8) {
		g.feat("context-look-alike")
		switch g.r.Intn(3) {
		case 0:
			ps = append(ps, g.imp(g.mod+"/dep", "dep", "depalias")+".Context")
		case 1:
			ps = append(ps, "Context")
		default:
			ps = append(ps, "*"+g.imp("context", "context", "stdctx")+".Context")
		}
	}
	np, nr := g.r.Intn(4), g.r.Intn(3)
	if g.p(1, 12) {
		g.feat("big-signature")
		np, nr = 4+g.r.Intn(6), 3+g.r.Intn(5)
		depth = 1
	}
	if only {
		np = 0
	}
	for n := np; n > 0; n-- {
		t := g.typ(g.r.Intn(depth + 1))
		ps = append(ps, t)
		if g.p(1, 3) {
			ps = append(ps, t)
		}
	}
	if !only && g.p(1, 3) {
		g.feat("variadic")
		if g.p(1, 5) {
			ps = append(ps, "..."+[]string{"any", "interface{}", "[]any"}[g.r.Intn(3)])
		} else {
			ps = append(ps, "..."+g.typ(g.r.Intn(depth)))
		}
	}
	for n := nr; n > 0; n-- {
		t := g.typ(g.r.Intn(depth + 1))
		rs = append(rs, t)
		if g.p(1, 5) {
			rs = append(rs, t)
		}
	}
	if !only && g.p(1, 30) {
		// more than ten of one type
		g.feat("many-of-a-type")
		t := g.typ(1)
		for n := 10 + g.r.Intn(3); n > 0; n-- {
			ps = append(ps[:0:0], append([]string{t}, ps...)...)
			if g.p(1, 2) {
				rs = append(rs, t)
			}
		}
	}
	if g.p(3, 5) {
		g.feat("err")
		rs = append(rs, g.parens("error", 20))
	}
	taken := map[string]bool{}
	s := name + "(" + g.list(ps, g.p(1, 2), taken) + ")"
	if len(rs) > 0 {
		s += " (" + g.list(rs, g.p(1, 2), taken) + ")"
	} else if g.p(1, 5) {
		g.feat("empty-results")
		s += " ()"
	}
	var doc string
	if g.p(1, 3) {
		g.feat("doc")
		doc = "\t// " + name + " does things: \"quoted\" %d `x`\n\t// second line\n"
		switch g.r.Intn(4) {
		case 0:
			doc = "\t/* block {{.X}} <b>&amp;</b>\n\t   more */\n\t//go:fix this\n\t//\n\t// end \\ of it\n"
		case 2:
			g.feat("doc-trailing-space")
			doc = "\t// " + name + " ends in spaces  \n\t//\t\n\t// and a tab\t\n"
		case 1:
			doc = "\t// detached from the next one\n\n\t// " + name + " ünï\n"
		}
	}
	cm := ""
	if g.p(1, 6) {
		g.feat("trailing-comment")
		cm = " // trailing " + name
		if g.p(1, 3) {
			cm = " /* one */ // two"
		} else if g.p(1, 3) {
			g.feat("doc-trailing-space")
			cm += " \t "
		}
	}
	return doc + "\t" + s + cm + "\n"
}

var methodNames = []string{"Get", "Put", "Delete", "List", "F", "HTTPDo", "Close", "With_Under", "Ünicode", "A1", "Scan", "Send", "String2", "Foo", "Timeout", "Error2", "𝐀do", "Ǆo"}

func (g *gen) iface(name string) {
	g.feats = map[string]bool{}
	g.tpars = nil
	g.local = g.o.Local && (g.o.AllLocal || g.p(1, 4))
	var b strings.Builder
	decl := "type " + name
	isLocal := g.local
	it := Iface{Name: name, Pkg: g.o.SrcDir}

	if g.o.Generics && g.p(1, 2) {
		it.Generic = true
		switch g.r.Intn(27) {
		case 23:
			g.tpars = []string{"T", "U"}
			decl += "[T interface{}, U interface{ comparable }]"
		case 24:
			g.tpars = []string{"T", "U", "V"}
			decl += "[T any, U Comparable, V interface{ Error }]"
		case 25:
			g.tpars = []string{"K", "k"}
			decl += "[K comparable, k interface{ Any | String }]"
		case 26:
			g.tpars = []string{"t", "T"}
			decl += "[t, T any]"
		case 21:
			g.tpars = []string{"LFn"}
			decl += "[LFn comparable]"
		case 22:
			g.tpars = []string{"LStr", "LFn"}
			decl += "[LStr comparable, LFn Slice[LStr]]"
		case 18:
			g.tpars = []string{"T", "U"}
			decl += "[T NumAlias, U OrdAlias]"
		case 19:
			g.tpars = []string{"T", "S"}
			decl += "[T any, S Slice[T]]"
		case 20:
			g.tpars = []string{"S"}
			decl += "[S Slice[LG[LG[LStr]]] | Slice[LAlias]]"
		case 15:
			g.tpars = []string{"T_", "T"}
			decl += "[T_ comparable, T any]"
		case 16:
			g.tpars = []string{"K_", "V_0", "Ω"}
			decl += "[K_, V_0 any, Ω interface{ ~[]K_ }]"
		case 17:
			g.tpars = []string{"A", "B", "C", "D", "E"}
			decl += "[A, B, C, D any, E ~map[string]A]"
		case 5:
			g.tpars = []string{"S", "E"}
			decl += "[S ~[]E, E any]"
		case 6:
			g.tpars = []string{"M", "Key", "Val"}
			decl += "[M ~map[Key]Val, Key comparable, Val any]"
		case 7:
			g.tpars = []string{"T"}
			decl += "[T interface {\n\t~int64 | ~string\n\t" + g.imp("fmt", "fmt") + ".Stringer\n}]"
		case 8:
			g.tpars = []string{"T", "U"}
			decl += "[T LI, U " + g.imp(g.mod+"/dep", "dep", "depalias") + ".Ord]"
		case 9:
			g.tpars = []string{"Fn", "T"}
			decl += "[Fn ~func(T) error, T any]"
		case 10:
			g.tpars = []string{"P", "Q"}
			decl += "[P *LT | *LStr | []LT, Q interface{ *LT | LG[P]; comparable }]"
		case 11:
			g.tpars = []string{"T"}
			decl += "[T error]"
		case 12:
			g.tpars = []string{"T", "U", "V"}
			decl += "[T, U any, V LG2[string, T] | LG[U]]"
		case 13:
			g.tpars = []string{"T"}
			decl += "[T EG[LT]]"
		case 14:
			g.tpars = []string{"T", "C"}
			decl += "[T any, C chan T | <-chan T | chan<- T | [2]T | struct{ F T }]"
		case 0:
			g.tpars = []string{"T"}
			decl += "[T any]"
		case 1:
			g.tpars = []string{"K", "V"}
			decl += "[K comparable, V any]"
		case 2:
			g.tpars = []string{"A", "B"}
			decl += "[A, B any]"
		case 3:
			g.tpars = []string{"T"}
			decl += "[T Num]"
		case 4:
			g.tpars = []string{"T", "E"}
			decl += "[T ~int | ~string, E " + g.imp("fmt", "fmt") + ".Stringer]"
		}
		if !strings.HasPrefix(g.tpars[0], "L") && g.p(1, 2) {
			g.feat("typeparam-names")
			pool := []string{"V1", "Ka", "elem", "t_", "T1", "Tx2", "Äb", "_T", "Element", "KEY", "Ctx", "世V"}
			g.r.Shuffle(len(pool), func(i, j int) { pool[i], pool[j] = pool[j], pool[i] })
			to := map[string]string{}
			for i, n := range g.tpars {
				to[n] = pool[i]
				g.tpars[i] = pool[i]
			}
			at := strings.Index(decl, "[")
			decl = decl[:at] + word.ReplaceAllStringFunc(decl[at:], func(w string) string {
				if n := to[w]; n != "" {
					return n
				}
				return w
			})
		}
		it.TParams = g.tpars
		g.feat("generic-target")
	}
	if g.o.Embeds && !g.local && !it.Generic && g.on("redeclared") && g.p(1, 10) {
		g.redeclared(it)
		return
	}
	n := 1 + g.r.Intn(g.o.MaxMethods)
	embeds := 1 + g.r.Intn(2)
	if g.p(1, 10) {
		g.feat("big-interface")
		n = 8 + g.r.Intn(len(methodNames)-8)
		embeds = 2 + g.r.Intn(4)
	}
	perm := g.r.Perm(len(methodNames))
	var body []string
	for i := 0; i < n; i++ {
		body = append(body, g.method(methodNames[perm[i]]))
	}
	if g.local && g.p(1, 2) {
		g.feat("unexported-method")
		body = append(body, g.method([]string{"hiddenMethod", "hiddenMethod", "_hidden", "ünseen", "世Do", "ǅdo"}[g.r.Intn(6)]))
	}
	if g.o.Embeds && g.p(1, 2) {
		for k := embeds; k > 0; k-- {
			if e := g.embed(); e != "" && !(slices.Contains(g.tpars, "LStr") && embFamily(e) == "EGH") {
				dup := false
				for _, x := range body {
					if x == "\t"+e+"\n" || (embFamily(x) != "" && embFamily(x) == embFamily("\t"+e+"\n")) {
						dup = true
					}
				}
				if !dup {
					body = append(body, "\t"+e+"\n")
					if e == "E3" && g.p(1, 2) {
						g.feat("overlap")
						body = append(body, "\t// E3Do again\n\tE3Do(again *LT, rest ...LG[int]) // own\n")
					}
				}
			}
		}
	}
	g.r.Shuffle(len(body), func(i, j int) { body[i], body[j] = body[j], body[i] })
	text := decl + " " + g.parens("interface {\n"+strings.Join(body, "")+"}", 16) + "\n\n"
	if g.p(1, 8) {
		g.feat("grouped-declaration")
		text = g.group(name, strings.TrimPrefix(text, "type "))
	}
	b.WriteString(text)
	g.f.body.WriteString(b.String())
	for f := range g.feats {
		it.Feats = append(it.Feats, f)
		g.m.Feats[f]++
	}
	if g.feats["unexported-type"] || g.feats["unexported-method"] || g.feats["embed-local-unexported"] {
		isLocal = true
	} else {
		isLocal = false
	}
	it.Local = isLocal
	sort.Strings(it.Feats)
	g.m.Ifaces = append(g.m.Ifaces, it)
}

// parens parenthesises a type once in n times
func (g *gen) parens(s string, n int) string {
	if !g.on("parens") || !g.p(1, n) {
		return s
	}
	g.feat("parens")
	if g.p(1, 4) {
		s = "(" + s + ")"
	}
	return "(" + s + ")"
}

var word = regexp.MustCompile(`[\pL_][\pL\pN_]*`)

// group puts a declaration among others in one type declaration
func (g *gen) group(name, text string) string {
	n := 1 + g.r.Intn(24)
	at := g.r.Intn(n + 1)
	s := "type (\n"
	for i := 0; i <= n; i++ {
		if i == at {
			s += text
		}
		if i < n {
			s += fmt.Sprintf("\tfill%s%d %s\n", name, i, []string{"int", "= string", "struct{ F int }", "interface{ G() }", "func(LT) error"}[g.r.Intn(5)])
		}
	}
	return s + ")\n\n"
}

// redeclared writes a target that is defined as, or is an alias of, another interface
func (g *gen) redeclared(it Iface) {
	g.feat("redeclared")
	var of string
	for of == "" || of == "error" {
		of = g.embed()
	}
	eq := ""
	if g.p(1, 2) {
		eq = "= "
		g.feat("alias-target")
	}
	g.f.body.WriteString("type " + it.Name + " " + eq + g.parens(of, 3) + "\n\n")
	for f := range g.feats {
		it.Feats = append(it.Feats, f)
		g.m.Feats[f]++
	}
	sort.Strings(it.Feats)
	g.m.Ifaces = append(g.m.Ifaces, it)
}

// embFamily names a group of embedded interfaces that clash with each other
func embFamily(s string) string {
	s = strings.TrimSpace(s)
	switch {
	case s == "EA", s == "ER", strings.HasPrefix(s, "EGA["), strings.HasPrefix(s, "EGR["), strings.HasPrefix(s, "EG["):
		return "EG"
	case strings.HasPrefix(s, "DGI["):
		return "DGI"
	case s == "EGNS", strings.HasPrefix(s, "EGN["):
		return "EGN"
	case strings.HasPrefix(s, "EGH["), strings.HasPrefix(s, "EGV["):
		return "EGH"
	case strings.HasPrefix(s, "EGT["):
		return "EGT"
	case strings.HasPrefix(s, "EGC["):
		return "EGC"
	case strings.HasPrefix(s, "EG2["):
		return "EG2"
	case strings.Contains(s, ".GI["), strings.HasSuffix(s, ".GAL"), strings.HasSuffix(s, ".GRD"), strings.Contains(s, ".GA["), strings.Contains(s, ".GA2["):
		return "GI"
	}
	return ""
}

func (g *gen) embed() string {
	cand := []struct {
		feat string
		f    func() string
	}{
		{"embed-local", func() string { return "E2" }},
		{"embed-local", func() string { return "E3" }},
		{"embed-parens", func() string { return "EP" }},
		{"embed-local", func() string { return "LI" }},
		{"embed-std", func() string { return g.imp("io", "io", "stdio") + ".Writer" }},
		{"embed-std-nested", func() string { return g.imp("io", "io", "stdio") + ".ReadWriteSeeker" }},
		{"embed-std", func() string { return g.imp("fmt", "fmt") + ".Stringer" }},
		{"embed-error", func() string { return "error" }},
		{"embed-dep", func() string { return g.imp(g.mod+"/dep", "dep") + ".I" }},
		{"embed-dep-odd", func() string { return g.imp(g.mod+"/dep", "dep") + ".Odd" }},
		{"embed-odd", func() string { return g.odd() + ".OE" }},
		{"embed-generic-local", func() string { return "EG[" + g.simpleArg() + "]" }},
		{"embed-generic-local2", func() string { return "EG2[string, " + g.simpleArg() + "]" }},
		{"embed-generic-dep", func() string { return g.imp(g.mod+"/dep", "dep") + ".GI[" + g.simpleArg() + "]" }},
		{"embed-alias", func() string { return "EA" }},
		{"embed-redeclared", func() string { return "ER" }},
		{"embed-generic-alias", func() string { return "EGA[" + g.simpleArg() + "]" }},
		{"embed-generic-redeclared", func() string { return "EGR[" + g.simpleArg() + "]" }},
		{"embed-nested-literals", func() string { return "EGN[" + g.simpleArg() + "]" }},
		{"embed-redeclared", func() string { return "EGNS" }},
		{"embed-hiding-params", func() string { return "EGH[" + g.simpleArg() + "]" }},
		{"embed-hiding-params", func() string { return "EGT[" + g.simpleArg() + ", " + g.simpleArg() + "]" }},
		{"embed-hiding-params", func() string {
			return "EGV[" + []string{"int", "LStr", "LT", "*LT"}[g.r.Intn(4)] + ", " + g.simpleArg() + "]"
		}},
		{"embed-names-case", func() string { return "EGC[string, " + g.simpleArg() + "]" }},
		{"embed-dep-alias", func() string { return g.imp(g.mod+"/dep", "dep") + ".GAL" }},
		{"embed-dep-redeclared", func() string { return g.imp(g.mod+"/dep", "dep") + ".GRD" }},
		{"embed-dep-generic-alias", func() string { return g.imp(g.mod+"/dep", "dep") + ".GA[" + g.simpleArg() + "]" }},
		{"embed-dep-nested-generic", func() string {
			return g.imp(g.mod+"/dep", "dep") + ".GA2[" + g.simpleArg() + ", " + g.simpleArg() + "]"
		}},
		{"embed-literal", func() string {
			g.feat("embed-literal")
			return "interface {\n" + g.method("Lit"+fmt.Sprint(g.r.Intn(1000))) + "\t}"
		}},
	}
	if g.f.imports[g.mod+"/dot-dep"] == "." {
		cand = append(cand, struct {
			feat string
			f    func() string
		}{"embed-dot", func() string { return "DI" }}, struct {
			feat string
			f    func() string
		}{"embed-dot-generic", func() string { return "DGI[" + g.simpleArg() + "]" }})
	}
	c := cand[g.r.Intn(len(cand))]
	if !g.on(c.feat) {
		return ""
	}
	if c.feat == "embed-dep" || c.feat == "embed-dep-odd" || c.feat == "embed-generic-dep" {
		if n, ok := g.f.imports[g.mod+"/dep"]; ok && n != "" && !g.on("embed-aliased-import") {
			return ""
		}
	}
	g.feat(c.feat)
	if _, ok := g.f.imports[g.mod+"/odd-dir"]; !ok && strings.HasPrefix(c.feat, "embed-std") || strings.HasPrefix(c.feat, "embed-dep") {
		if !ok && g.p(1, 3) {
			g.feat("import-name-case")
			n := []string{"Dep", "DEP", "IO", "Io", "Fmt"}[g.r.Intn(5)]
			g.f.imports[g.mod+"/odd-dir"] = n
			g.f.body.WriteString("var _ " + n + ".O\n\n")
		}
	}
	return c.f()
}

func (g *gen) simpleArg() string {
	c := []string{"int", "string", "LT", "LStr"}
	if g.on("embed-generic-composite-arg") {
		c = append(c, "*LT", "[]string", "LG[int]", "map[string]LT", "LG[LG[LStr]]", "LG2[string, LG[LG[int]]]", "LG2[LStr, LG2[int, *LT]]", "func(LT) LG[LT]")
	}
	if len(g.tpars) > 0 {
		c = append(c, g.tpars[0])
	}
	if g.p(1, 4) {
		g.feat("embed-generic-predeclared-arg")
		switch g.r.Intn(8) {
		case 0:
			return g.imp("context", "context", "stdctx") + ".Context"
		case 1:
			return "*" + g.imp("context", "context", "stdctx") + ".Context"
		case 2:
			return g.imp(g.mod+"/dep", "dep", "depalias") + ".Context"
		}
		c = []string{"any", "error", "error", "interface{}", "Any", "String", "bool", "Context"}
	}
	s := c[g.r.Intn(len(c))]
	if strings.ContainsAny(s, "*[") {
		g.feat("embed-generic-composite-arg")
	}
	return s
}
