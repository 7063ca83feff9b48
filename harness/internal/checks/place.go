package checks

import (
	"encoding/json"
	"fmt"
	"go/parser"
	"go/token"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"verifharness/internal/core"
)

// place is a kind of destination directory.
type place struct {
	name   string
	files  map[string]string // what the destination has
	dst    string            // directory
	clause string            // the expected package clause, "" for the source package's own
	nobld  bool              // the package does not compile for other reasons
}

func places() []place {
	return []place{
		{"missing", nil, "dst", "dst", false},
		{"missing-nested", nil, "a/b/deep", "deep", false},
		{"missing-internal", nil, "internal/inner", "inner", false},
		{"missing-unicode", nil, "пакет", "пакет", true},
		{"parent-missing", map[string]string{"sub/keep.txt": "x"}, "dst", "dst", false},
		{"grandparent-missing", map[string]string{"sub/sub/keep.txt": "x"}, "dst", "dst", false},
		{"missing-below-package", map[string]string{"a.go": "package parent\n"}, "par/sub", "sub", false},
		{"existing", map[string]string{"a.go": "package dst\n\ntype A int\n"}, "dst", "dst", false},
		{"existing-other-name", map[string]string{"a.go": "package other\n\ntype A int\n"}, "dst", "other", false},
		{"existing-hyphen", map[string]string{"a.go": "package mocks\n"}, "go-mocks", "mocks", false},
		{"existing-version", map[string]string{"a.go": "package svc\n", "b.go": "package svc\n\nvar X = 1\n"}, "svc/v2", "svc", false},
		{"existing-main", map[string]string{"a.go": "package main\n\nfunc main() {}\n"}, "cmd", "main", false},
		{"existing-like-source", map[string]string{"a.go": "package src\n\ntype Local int\n"}, "dst", "src", false},
		{"existing-with-tests", map[string]string{"a.go": "package other\n", "a_test.go": "package other\n", "x_test.go": "package other_test\n"}, "dst", "other", false},
		{"existing-with-program", map[string]string{"a.go": "package other\n", "gen.go": "//go:build ignore\n\npackage main\n\nfunc main() {}\n"}, "dst", "other", false},
		{"existing-with-doc", map[string]string{"doc.go": "/*\nPackage other is documented.\n\npackage wrong\n*/\npackage other\n"}, "dst", "other", false},
		{"existing-type-error", map[string]string{"a.go": "package other\n\nvar A int = \"x\"\n"}, "dst", "other", true},
		{"existing-missing-import", map[string]string{"a.go": "package other\n\nimport \"example.com/not/there\"\n\nvar A = there.A\n"}, "dst", "other", true},
		{"existing-import-of-missing", map[string]string{"a.go": "package other\n\nimport _ \"m/nowhere\"\n"}, "dst", "other", true},
		{"existing-syntax-error", map[string]string{"a.go": "package other\n\nfunc A( {\n"}, "dst", "other", true},
		{"existing-one-syntax-error", map[string]string{"a.go": "package other\n\nfunc A( {\n", "b.go": "package other\n"}, "dst", "other", true},
		{"existing-stale-output", map[string]string{"a.go": "package other\n", "OUT": "// Code generated by gowrap. DO NOT EDIT.\n\npackage other\n\nvar X gone.Type\n"}, "dst", "other", false},
		{"existing-other-module", map[string]string{"a.go": "package other\n", "go.mod": "module example.com/nested\n\ngo 1.24\n"}, "dst", "other", true},
		{"empty", map[string]string{"../keep.txt": "x"}, "dst", "dst", false},
		{"no-go-files", map[string]string{"readme.md": "package no\n", "x.txt": "package no\n", "_x.go": "package no\n"}, "dst", "dst", false},
		{"only-program", map[string]string{"gen.go": "//go:build ignore\n\npackage main\n\nfunc main() {}\n"}, "dst", "dst", false},
		{"only-tests", map[string]string{"a_test.go": "package other\n\nimport \"testing\"\n\nfunc TestA(*testing.T) {}\n"}, "dst", "other", false},
		{"only-external-tests", map[string]string{"a_test.go": "package dst_test\n\nimport \"testing\"\n\nfunc TestA(*testing.T) {}\n"}, "dst", "dst", false},
		{"below-source", nil, "SRC/mocks", "mocks", false},
		{"above-source", map[string]string{"a.go": "package root\n"}, ".", "root", false},
		{"existing-twin", map[string]string{"a.go": "package SRCPKG\n\ntype Local int\n"}, "mirror/SRCBASE", "SRCPKG", false},
		{"existing-twin-with-types", map[string]string{"a.go": "package SRCPKG\n\ntype T struct{ B string }\n"}, "mirror/SRC", "SRCPKG", false},
		{"existing-path-twin", map[string]string{"a.go": "package SRCPKG\n\ntype Local int\n"}, "copy/SRCPATH", "SRCPKG", false},
		{"missing-path-twin", nil, "copy/SRCPATH", "SRCLAST", false},
		{"hidden", map[string]string{"a.go": "package hid\n"}, ".gen", "hid", true},
		{"below-hidden", map[string]string{"a.go": "package hid\n"}, ".gen/mocks", "hid", true},
		{"missing-below-hidden", nil, ".gen/mocks", "mocks", true},
		{"missing-dots", nil, "..gen/mocks", "mocks", true},
		{"vendor-like", map[string]string{"a.go": "package ven\n"}, "vendored/x", "ven", false},
		{"testdata", map[string]string{"a.go": "package td\n"}, "testdata/x", "td", true},
		{"underscore", map[string]string{"a.go": "package und\n"}, "_und", "und", true},
		{"link", map[string]string{"../real/a.go": "package real2\n", "LINK": "real"}, "lnk", "real2", false},
		{"own", nil, "SRC", "", false},
		{"own-stale-output", map[string]string{"OUT": "// Code generated by gowrap. DO NOT EDIT.\n\npackage SRCPKG\n\nvar X Gone\n"}, "SRC", "", false},
		{"own-with-tests", map[string]string{"own_test.go": "package SRCPKG\n", "own_x_test.go": "package SRCPKG_test\n"}, "SRC", "", false},
	}
}

// respell writes a path to a directory in some other way.
func respell(r *rand.Rand, cwd, abs string) (string, string) {
	rel, err := filepath.Rel(cwd, abs)
	core.Must(err, "Rel")
	switch r.Intn(7) {
	case 0:
		return abs, "absolute"
	case 1:
		if !strings.HasPrefix(rel, "..") {
			return "./" + rel, "dot"
		}
	case 2:
		return filepath.Dir(cwd)[0:0] + "../" + filepath.Base(cwd) + "/" + rel, "around"
	case 3:
		if strings.Contains(rel, "/") && !strings.HasPrefix(rel, "..") {
			return strings.Replace(rel, "/", "//", 1), "double slash"
		}
	case 4:
		if !strings.HasPrefix(rel, "..") && rel != "." {
			return "././" + rel + "/.", "dots"
		}
	case 5:
		return filepath.Dir(abs) + "/./" + filepath.Base(abs), "absolute with dots"
	}
	return rel, "relative"
}

func init() {
	reg("C30", func(c *core.Ctx) {
		c.Rule = "a case is one source package, destination, output file name, working directory and spelling of the paths; non-trivial: distinct combinations"
		c.Assume = []string{"the go command and compiler judge the packages"}
		root := c.Dir("m")
		core.Write(root, map[string]string{
			"go.mod": "module m\n\ngo 1.24\n",
			"t.tmpl": "type {{.Vars.Dec}} struct{ base {{.Interface.Type}} }\n\nvar _ {{.Interface.Type}} = (*{{.Vars.Dec}})(nil)\n\n{{range .Interface.Methods}}func (d *{{$.Vars.Dec}}) {{.Declaration}} {\n\t{{.Pass \"d.base.\"}}\n}\n\n{{end}}const Z{{.Vars.Dec}} = \"{{.Interface.Type}}\"\n",
		})
		type cse struct {
			dir, srcDir, srcPkg, dst, file, cwd, spell, pspell, p, o, clause string
			own, nobld                                                       bool
			iface, path                                                      string // the interface and its package
			pl                                                               place
			pre                                                              map[string]string
			out                                                              string
			res                                                              core.Result
		}
		var cs []*cse
		kinds := places()
		for i := 0; i < c.Pick(9*len(kinds), 2400); i++ {
			r := rand.New(rand.NewSource(c.Seed*7919 + int64(i)))
			pl := kinds[i%len(kinds)]
			if i > len(kinds) && r.Intn(6) == 0 {
				pl = kinds[len(kinds)-3+r.Intn(3)] // the source package itself
			}
			k := &cse{dir: filepath.Join(root, fmt.Sprintf("c%d", i)), pl: pl}
			k.srcDir = filepath.Join(k.dir, []string{"src", "src", "go-src", "src/v2", "deep/er/src", ".src", "..src/in", "_src", "testdata/src"}[r.Intn(9)])
			k.srcPkg = []string{"src", "src", "other", "dst", "store"}[r.Intn(5)]
			if pl.name == "existing-main" && r.Intn(2) == 0 {
				k.srcPkg = "main2"
			}
			rel, _ := filepath.Rel(k.dir, k.srcDir)
			k.iface = "Iface"
			k.path, _ = filepath.Rel(root, k.srcDir)
			k.path = "m/" + k.path
			std := !strings.HasPrefix(pl.name, "own") && r.Intn(5) == 0
			if std { // a package of the standard library
				x := [][2]string{{"io", "ReadWriteCloser"}, {"context", "Context"}, {"net/http", "ResponseWriter"}, {"sort", "Interface"}, {"database/sql/driver", "Conn"}, {"fmt", "State"}}[r.Intn(6)]
				k.path, k.iface = x[0], x[1]
				k.srcPkg = filepath.Base(k.path)
			}
			k.dst = filepath.Join(k.dir, strings.NewReplacer("SRCPATH", k.path, "SRCBASE", filepath.Base(k.path), "SRC", rel).Replace(pl.dst))
			k.file = []string{"out.go", "iface_with_x.go", "zz_test.go", "Out.go", "out_test.go", "gen.out.go", "0.go"}[r.Intn(7)]
			if pl.clause == "" {
				k.own = true
				k.clause = k.srcPkg
			} else {
				k.clause = strings.NewReplacer("SRCPKG", k.srcPkg, "SRCLAST", filepath.Base(k.path)).Replace(pl.clause)
				if strings.Contains(pl.clause, "SRCLAST") && !token.IsIdentifier(k.clause) {
					k.dst, k.clause = filepath.Dir(k.dst)+"/named", "named"
				}
			}
			k.nobld = pl.nobld
			files := map[string]string{}
			files[rel+"/types.go"] = "package " + k.srcPkg + "\n\ntype T struct{ A int }\n\ntype E = error\n"
			files[rel+"/iface.go"] = "package " + k.srcPkg + "\n\nimport \"io\"\n\ntype Iface interface {\n\tF(t T, ts ...*T) (map[string]T, E)\n\tG(w io.Writer) func(T) chan<- T\n\tH()\n}\n"
			for f, b := range pl.files {
				b = strings.ReplaceAll(b, "SRCPKG", k.srcPkg)
				switch f {
				case "OUT":
					f = k.file
				case "LINK":
					core.Must(os.MkdirAll(k.dir, 0o755), "mkdir")
					core.Must(os.Symlink(b, k.dst), "link")
					continue
				}
				g, _ := filepath.Rel(k.dir, filepath.Join(k.dst, f))
				files[g] = b
			}
			if pl.name == "missing-below-package" {
				files["par/a.go"] = files["par/sub/a.go"]
				delete(files, "par/sub/a.go")
			}
			core.Write(k.dir, files)
			if pl.name == "empty" {
				core.Must(os.MkdirAll(k.dst, 0o755), "mkdir")
			}
			k.cwd = root
			switch r.Intn(5) {
			case 0:
				k.cwd = k.dir
			case 1:
				k.cwd = k.srcDir
			case 2:
				if i, err := os.Lstat(k.dst); err == nil && i.IsDir() && pl.name != "existing-other-module" {
					k.cwd = k.dst
				}
			}
			switch pl.name {
			case "parent-missing":
				k.cwd = filepath.Join(k.dst, "sub")
			case "grandparent-missing":
				k.cwd = filepath.Join(k.dst, "sub/sub")
			}
			if k.cwd == root && r.Intn(3) == 0 {
				k.cwd = k.dir
			}
			var s string
			s, k.spell = respell(r, k.cwd, k.dst)
			if pl.name == "link" && strings.HasPrefix(s, "..") {
				s, k.spell = k.dst, "absolute"
			}
			k.o = s + "/" + k.file
			if s == "." && r.Intn(2) == 0 {
				k.o = k.file
				k.spell = "bare"
			}
			switch n := r.Intn(3); {
			case std:
				k.p, k.pspell = k.path, "standard library"
			case n == 0:
				k.p, k.pspell = respell(r, k.cwd, k.srcDir)
				if k.p == "." && r.Intn(2) == 0 {
					k.p, k.pspell = "", "default"
				} else if k.p[0] != '/' && k.p != "." && k.p != ".." && !strings.HasPrefix(k.p, "./") && !strings.HasPrefix(k.p, "../") {
					k.p = "./" + k.p
				}
			default:
				k.p, k.pspell = k.path, "import path"
			}
			cs = append(cs, k)
		}
		gw := c.Gowrap()
		dec := func(i int) string { return "Dec" + strconv.Itoa(i) }
		core.Parallel(len(cs), func(i int) {
			k := cs[i]
			before := snapshot(k.dir)
			_, was := os.Stat(filepath.Join(k.dst, k.file))
			args := []string{gw, "gen", "-i", k.iface, "-t", filepath.Join(root, "t.tmpl"), "-o", k.o, "-v", "Dec=" + dec(i)}
			if k.p != "" {
				args = append(args, "-p", k.p)
			}
			k.res = core.Run(core.Cmd{Dir: k.cwd, Env: core.Env(core.GoRoot), Args: args})
			rel, _ := filepath.Rel(k.dir, k.dst)
			if k.pl.name == "link" {
				rel = "real"
			}
			b, err := os.ReadFile(filepath.Join(k.dir, rel, k.file))
			k.out = string(b)
			fl, _ := json.MarshalIndent(core.ReadTree(k.dir), "", " ")
			rep := map[string]string{"files.json": string(fl), "out.go.txt": k.out, "args.txt": fmt.Sprintf("cwd %s\n%q", k.cwd, args), "stderr.txt": k.res.Err}
			what := fmt.Sprintf("%s: gowrap gen -p %q -o %q in %s", k.pl.name, k.p, k.o, k.cwd)
			id := fmt.Sprintf("%s/%s/%s/%s", k.pl.name, filepath.Base(k.srcDir)+"."+k.srcPkg, k.file, k.spell)
			if k.res.Code != 0 || err != nil {
				c.Finding("refused/"+id, what+" is refused:\n"+core.Clip(k.res.Err, 800), rep)
				k.nobld = true
				return
			}
			// only the output, and its missing directories, are new
			for _, ch := range changes(before, snapshot(k.dir)) {
				ok := strings.HasPrefix(ch, "created "+filepath.Join(rel, k.file)+" (file") || was == nil && strings.HasPrefix(ch, "changed "+filepath.Join(rel, k.file)+" (file")
				for d := rel; d != "." && !ok; d = filepath.Dir(d) {
					ok = strings.HasPrefix(ch, "created "+d+" (dir")
				}
				if !ok {
					c.Finding("other-file/"+id, what+": "+ch, rep)
				}
			}
			f, err := parser.ParseFile(token.NewFileSet(), "o.go", k.out, parser.ImportsOnly)
			if err != nil {
				c.Finding("syntax/"+id, what+": "+err.Error(), rep)
				return
			}
			if f.Name.Name != k.clause {
				c.Finding("clause/"+id, fmt.Sprintf("%s writes package %s, want %s", what, f.Name.Name, k.clause), rep)
				k.nobld = true
			}
			z := consts(k.out)["Z"+dec(i)]
			imported := false
			for _, im := range f.Imports {
				p, _ := strconv.Unquote(im.Path.Value)
				imported = imported || p == k.path
			}
			if k.own && (z != k.iface || imported) || !k.own && (!strings.HasSuffix(z, "."+k.iface) || !imported) {
				c.Finding("qualified/"+id, fmt.Sprintf("%s refers to the interface as %s, source package imported: %v", what, z, imported), rep)
				k.nobld = true
			}
			c.Count("place_"+k.pl.name, 1)
			c.Count("spelling_"+k.spell, 1)
			c.Count("source_"+k.pspell, 1)
			if k.own {
				c.Count("own_package", 1)
			}
			if strings.HasSuffix(k.file, "_test.go") {
				c.Count("test_files", 1)
			}
			c.Eval(id + k.p + k.o + k.cwd)
			c.Sample(map[string]any{"place": k.pl.name, "p": k.p, "o": k.o, "cwd": k.cwd, "clause": f.Name.Name})
		})
		workspaces(c)
		// every package that can compile does
		var pats []string
		byPat := map[string]*cse{}
		for _, k := range cs {
			if k.nobld {
				continue
			}
			d := k.dst
			if k.pl.name == "link" {
				d = filepath.Join(k.dir, "real")
			}
			rel, _ := filepath.Rel(root, d)
			pats = append(pats, "./"+rel)
			byPat["m/"+rel] = k
		}
		if len(pats) > 0 {
			r := core.Run(core.Cmd{Dir: root, Env: core.Env(core.GoRoot), Args: append([]string{filepath.Join(core.GoRoot, "bin/go"), "vet", "-copylocks"}, pats...)})
			if r.Code != 0 {
				seen := map[*cse]bool{}
				for p, k := range byPat {
					if strings.Contains(r.Err, "# "+p+"\n") || strings.Contains(r.Err, "# "+p+"_test\n") || strings.Contains(r.Err, "# ["+p+"]\n") || strings.Contains(r.Err, p[2:]+"/") {
						seen[k] = true
						c.Finding(fmt.Sprintf("compile/%s/%s.%s/%s", k.pl.name, filepath.Base(k.srcDir), k.srcPkg, k.file), "the destination does not compile:\n"+core.Clip(r.Err, 1500), map[string]string{"out.go.txt": k.out})
					}
				}
				if len(seen) == 0 {
					c.Finding("compile", "the destinations do not compile:\n"+core.Clip(r.Err, 1500), nil)
				}
			}
			c.Count("compiled", len(pats))
		}
		if c.Violations() == 0 {
			c.Need("compiled", len(cs)/2)
			c.Need("own_package", 4)
			c.Need("test_files", 10)
		}
	})
}
