package checks

import (
	"encoding/json"
	"fmt"
	"go/build"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"verifharness/internal/core"
)

// platform is the build a layout is generated for.
type platform struct {
	goos, goarch, tags string
	cgo                bool
}

func (p platform) env() []string {
	e := []string{"GOOS=" + p.goos, "GOARCH=" + p.goarch}
	if p.tags != "" {
		e = append(e, "GOFLAGS=-mod=mod -tags="+p.tags)
	}
	if p.cgo {
		return append(e, "CGO_ENABLED=1")
	}
	return append(e, "CGO_ENABLED=0")
}

func (p platform) context() build.Context {
	x := build.Default
	x.GOOS, x.GOARCH, x.CgoEnabled = p.goos, p.goarch, p.cgo
	x.BuildTags = nil
	if p.tags != "" {
		x.BuildTags = strings.Split(p.tags, ",")
	}
	x.ReleaseTags = nil
	for i := 1; i <= 24; i++ {
		x.ReleaseTags = append(x.ReleaseTags, fmt.Sprintf("go1.%d", i))
	}
	return x
}

// variant is a pair of ways of putting a declaration in or out of the build.
type variant struct {
	name, head string // file name suffix and what goes before the package clause
	pkg        string // package clause when it is not the package's
	cgo        bool
}

var variants = []variant{
	{"", "//go:build ignore\n\n", "", false}, {"", "//go:build ignore\n\n", "main", false}, {"", "//go:build mytag\n\n", "", false}, {"", "//go:build !mytag\n\n", "", false},
	{"_linux", "", "", false}, {"_windows", "", "", false}, {"_darwin", "", "", false}, {"_arm64", "", "", false}, {"_amd64", "", "", false}, {"_windows_amd64", "", "", false}, {"_linux_arm64", "", "", false},
	{"", "//go:build linux && amd64\n\n", "", false}, {"", "//go:build !linux\n\n", "", false}, {"", "//go:build !(linux && amd64) || mytag\n\n", "", false}, {"", "//go:build go1.99\n\n", "", false}, {"", "//go:build go1.5\n\n", "", false},
	{"", "// Copyright\n\n//go:build unix\n\n", "", false}, {"", "//go:build windows || darwin\n// +build windows darwin\n\n", "", false}, {"_test", "", "_test", false}, {"_test", "//go:build ignore\n\n", "", false},
	{"", "", "", true}, {"", "//go:build cgo\n\n", "", false}, {"", "//go:build !cgo\n\n", "", false}, {"_unix", "", "", false}, {"_linux_test", "", "_test", false}, {"_js", "", "", false}, {"", "//go:build mytag && othertag\n\n", "", false},
	{"_", "", "", false}, {".", "", "", false}, // files whose names begin so are not part of the package
}

type layoutCase struct {
	dir      string
	plat     platform
	want     []string // method names
	files    map[string]string
	features map[string]bool
	iface    string
	ok       bool
}

// layout writes a package directory in which several files declare the
// interface; it tells which methods the declaration of the build has, "" when
// none or several files of the build declare it.
func layout(r *rand.Rand, plat platform, dir, pkg, iface string, embedSpecs []string, imports string, feats map[string]bool) (files map[string]string, chosen string, ok bool) {
	files = map[string]string{}
	ctx := plat.context()
	marker := 0
	bases := []string{"a", "zz", "m", "Iface", "svc", "aa", "types", "b0"}
	r.Shuffle(len(bases), func(i, j int) { bases[i], bases[j] = bases[j], bases[i] })
	decl := func(m string, emb bool) string {
		e := ""
		if emb {
			for _, s := range embedSpecs {
				e += "\t" + s + "\n"
			}
		}
		it := "interface {\n" + e + "\t" + m + "(x int) error\n}"
		switch r.Intn(4) {
		case 0:
			feats["grouped"] = true
			return "type (\n\tbefore" + m + " int\n\t" + iface + " " + it + "\n\tafter" + m + " string\n)\n"
		case 1:
			feats["local-type-before"] = true
			return "func f" + m + "() {\n\ttype " + iface + " interface{ Local" + m + "() }\n\tvar _ " + iface + "\n}\n\ntype " + iface + " " + it + "\n"
		}
		return "type " + iface + " " + it + "\n"
	}
	inBuild := 0
	n := 1 + r.Intn(5)
	for i := 0; i < n; i++ {
		v := variants[r.Intn(len(variants))]
		if i == 0 && r.Intn(2) == 0 {
			v = variant{}
		}
		name := bases[i%len(bases)] + v.name + ".go"
		if v.name == "_" || v.name == "." {
			name = v.name + bases[i%len(bases)] + ".go"
		}
		if _, dup := files[name]; dup {
			continue
		}
		p := pkg
		switch v.pkg {
		case "_test":
			p = pkg + "_test"
		case "main":
			p = "main"
		}
		marker++
		m := fmt.Sprintf("%sM%d", iface, marker)
		comments := []string{
			"", "", "// Code generated by protoc-gen-go. DO NOT EDIT.\n// source: a.proto\n\n", "// Code generated by mockery. DO NOT EDIT.\n\n", "// Code generated by gowrap. DO NOT EDIT.\n// template: t\n\n",
			"/*\nCopyright\n\npackage wrong\n*/\n\n", "//go:generate go version\n\n",
		}[r.Intn(7)]
		if strings.HasPrefix(comments, "// Code") {
			feats["generated-source"] = true
		}
		body := comments + v.head
		if r.Intn(2) == 0 {
			body = v.head + comments
		}
		if r.Intn(4) == 0 {
			body += "// Package " + p + " is documented.\n"
		}
		body += "package " + p + "\n\n"
		if v.cgo {
			body += "import \"C\"\n\n"
		}
		inPkg := p == pkg
		if inPkg {
			body += imports
		}
		body += decl(m, inPkg)
		files[name] = body
		core.Write(dir, map[string]string{name: body})
		match, err := ctx.MatchFile(dir, name)
		core.Must(err, "MatchFile")
		if match && v.cgo && !plat.cgo {
			match = false
		}
		if match && inPkg && !strings.HasSuffix(name, "_test.go") {
			inBuild++
			chosen = m
		} else {
			feats["excluded-declaration"] = true
			feats["variant "+strings.TrimSpace(strings.ReplaceAll(v.head, "\n", " "))+v.name+v.pkg] = true
		}
	}
	return files, chosen, inBuild == 1
}

func init() {
	reg("C31", func(c *core.Ctx) {
		c.Rule = "a case is a directory whose files declare an interface several times, for one platform and set of tags; non-trivial: distinct files and platform"
		c.Assume = []string{"go/build matches files as the go command does; layouts with no or several declarations in the build are not judged"}
		dir := c.Dir("m")
		core.Write(dir, map[string]string{"go.mod": "module m\n\ngo 1.24\n", "t.tmpl": "const zz = \"{{range $k, $v := .Interface.Methods}}{{$k}} {{end}}\"\n"})
		var cs []*layoutCase
		plats := []platform{{"linux", "amd64", "", true}, {"linux", "amd64", "", false}, {"linux", "amd64", "mytag", true}, {"windows", "amd64", "", false}, {"darwin", "arm64", "", false}, {"linux", "arm64", "mytag", false}}
		for i := 0; len(cs) < c.Pick(420, 2500); i++ {
			r := rand.New(rand.NewSource(c.Seed*6151 + int64(i)))
			k := &layoutCase{plat: plats[r.Intn(len(plats))], features: map[string]bool{}, files: map[string]string{}, iface: []string{"Iface", "Svc", "A", "Reader"}[r.Intn(4)]}
			if r.Intn(2) == 0 {
				k.plat = plats[0]
			}
			k.dir = fmt.Sprintf("c%d", i)
			var embeds []string
			imports := ""
			k.ok = true
			add := func(sub string, fs map[string]string) {
				for f, b := range fs {
					k.files[filepath.Join(sub, f)] = b
				}
			}
			if r.Intn(3) == 0 { // an embedded interface of another package
				fs, m, ok := layout(r, k.plat, filepath.Join(dir, k.dir, "dep"), "dep", "Far", nil, "", k.features)
				k.ok = k.ok && ok
				k.want = append(k.want, m)
				add("dep", fs)
				embeds = append(embeds, "dep.Far")
				imports = "import \"m/" + k.dir + "/dep\"\n\nvar _ dep.Far\n\n"
				k.features["embedded-far"] = true
			}
			if r.Intn(3) == 0 { // and of its own
				fs, m, ok := layout(r, k.plat, filepath.Join(dir, k.dir, "tmp"), "src", "Near", nil, "", k.features)
				removeAll(filepath.Join(dir, k.dir, "tmp"))
				k.ok = k.ok && ok
				k.want = append(k.want, m)
				near := map[string]string{}
				for f, b := range fs {
					g := "near_" + f
					if f[0] == '_' || f[0] == '.' {
						g = f[:1] + "near" + f[1:]
					}
					near[g] = b
				}
				core.Write(filepath.Join(dir, k.dir, "src"), near)
				add("src", near)
				embeds = append(embeds, "Near")
				k.features["embedded-near"] = true
			}
			fs, m, ok := layout(r, k.plat, filepath.Join(dir, k.dir, "src"), "src", k.iface, embeds, imports, k.features)
			add("src", fs)
			k.ok = k.ok && ok
			k.want = append(k.want, m)
			if !k.ok {
				removeAll(filepath.Join(dir, k.dir))
				continue
			}
			switch r.Intn(6) { // what is not Go for the go command does not matter
			case 0:
				core.Write(filepath.Join(dir, k.dir, "src"), map[string]string{"_draft.go": "package src\n\nthis is a draft\n", ".#lock.go": "not Go", "readme.txt": "x"})
				k.features["unparsable-hidden-file"] = true
			case 1:
				core.Write(filepath.Join(dir, k.dir, "src"), map[string]string{"aaa_predeclared.go": "//go:build ignore\n\npackage src\n\ntype error interface{ Foo() }\n\ntype int struct{}\n"})
				k.features["excluded-predeclared"] = true
			case 2:
				core.Write(filepath.Join(dir, k.dir, "src"), map[string]string{"gen.go": "//go:build ignore\n\n// Program of go generate.\npackage main\n\nimport \"example.com/not/there\"\n\nfunc main() { there.X() }\n"})
				k.features["excluded-program"] = true
			}
			sort.Strings(k.want)
			cs = append(cs, k)
		}
		c.Gowrap()
		core.Parallel(len(cs), func(i int) { checkLayout(c, dir, cs[i]) })
		if c.Violations() == 0 {
			c.Need("layouts", len(cs))
			c.Need("with_excluded_declarations", len(cs)/2)
			c.Need("with_embedded", len(cs)/5)
		}
	})
}

func checkLayout(c *core.Ctx, dir string, k *layoutCase) {
	for _, where := range []string{"dst", "src"} {
		out := k.dir + "/" + where + "/zz_out.go"
		r := core.Run(core.Cmd{Dir: dir, Env: core.Env(core.GoRoot, k.plat.env()...), Args: []string{c.Gowrap(), "gen", "-g", "-p", "./" + k.dir + "/src", "-i", k.iface, "-t", "t.tmpl", "-o", out}})
		b, _ := os.ReadFile(filepath.Join(dir, out))
		fl, _ := json.MarshalIndent(k.files, "", " ")
		rep := map[string]string{"files.json": string(fl), "out.go.txt": string(b), "stderr.txt": r.Err, "case.txt": fmt.Sprintf("%+v features %v", k.plat, sortedKeys(k.features))}
		id := fmt.Sprintf("%s/%s", k.dir, where)
		if r.Code != 0 {
			c.Finding("refused/"+id, fmt.Sprintf("gowrap refuses %s (%+v, %v):\n%s", k.iface, k.plat, sortedKeys(k.features), core.Clip(r.Err, 800)), rep)
			return
		}
		got := strings.TrimSpace(consts(string(b))["zz"])
		if want := strings.Join(k.want, " "); got != want {
			c.Finding("declaration/"+id, fmt.Sprintf("the declaration of %s for %+v has the methods %s, the model has %s (%v)\n%s", k.iface, k.plat, want, got, sortedKeys(k.features), core.Clip(string(fl), 1500)), rep)
			return
		}
		removeAll(filepath.Join(dir, out))
		// a file that is not of the package's own does not decide its name
		if f, err := parser.ParseFile(token.NewFileSet(), "o.go", b, parser.PackageClauseOnly); err != nil || f.Name.Name != where {
			c.Finding("clause/"+id, fmt.Sprintf("the package of %s is %s", out, f.Name.Name), rep)
		}
	}
	c.Count("layouts", 1)
	if k.features["excluded-declaration"] {
		c.Count("with_excluded_declarations", 1)
	}
	if k.features["embedded-near"] || k.features["embedded-far"] {
		c.Count("with_embedded", 1)
	}
	for f := range k.features {
		c.Count("feature_"+f, 1)
	}
	fl, _ := json.Marshal(k.files)
	c.Eval(string(fl) + fmt.Sprint(k.plat))
	c.Sample(map[string]any{"platform": fmt.Sprintf("%+v", k.plat), "features": sortedKeys(k.features), "methods": k.want})
}
