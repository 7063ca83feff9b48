package core

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// Mod is a compiled scratch module.
type Mod struct {
	Dir  string
	Pkgs map[string]*ListPkg // by import path
	imp  types.Importer
	Fset *token.FileSet
	src  map[string]*types.Package
}

// ListPkg is what "go list" says about a package.
type ListPkg struct {
	ImportPath string
	Name       string
	Dir        string
	Export     string
	Standard   bool
	GoFiles    []string
	Error      *struct{ Err string }
	DepsErrors []struct{ Err string }
	Incomplete bool
}

// Load compiles patterns in a module with the real compiler and gives access
// to the resulting types. Compile errors are left in the packages.
func Load(goroot, dir string, patterns ...string) *Mod {
	args := append([]string{"go", "list", "-e", "-export", "-deps", "-json=ImportPath,Name,Dir,Export,Standard,GoFiles,Error,DepsErrors,Incomplete"}, patterns...)
	r := Run(Cmd{Dir: dir, Env: Env(goroot), Args: args})
	if r.Code != 0 && r.Out == "" {
		Fail("go list in %s: %s", dir, r.Err)
	}
	m := &Mod{Dir: dir, Pkgs: map[string]*ListPkg{}, Fset: token.NewFileSet()}
	dec := json.NewDecoder(strings.NewReader(r.Out))
	for {
		var p ListPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			Fail("go list output: %v\n%s", err, r.Err)
		}
		q := p
		m.Pkgs[p.ImportPath] = &q
	}
	m.imp = importer.ForCompiler(m.Fset, "gc", func(path string) (io.ReadCloser, error) {
		p := m.Pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	return m
}

// Err returns the compile error of a package, "" if it compiles.
func (m *Mod) Err(path string) string {
	p := m.Pkgs[path]
	if p == nil {
		return "package " + path + " is not listed"
	}
	if p.Error != nil {
		return p.Error.Err
	}
	if p.Export == "" {
		var ds []string
		for _, d := range p.DepsErrors {
			ds = append(ds, d.Err)
		}
		return "package does not compile: " + strings.Join(ds, "\n")
	}
	return ""
}

// Import returns the type-checked package.
func (m *Mod) Import(path string) (*types.Package, error) { return m.imp.Import(path) }

// Paths lists the non-standard packages.
func (m *Mod) Paths() []string {
	var out []string
	for p, i := range m.Pkgs {
		if !i.Standard {
			out = append(out, p)
		}
	}
	sort.Strings(out)
	return out
}

// Source type-checks a package from its source, so that unexported names are
// there too.
func (m *Mod) Source(path string) (*types.Package, error) {
	if p, ok := m.src[path]; ok {
		return p, nil
	}
	p, err := m.check(path, nil)
	if err != nil { // what was generated may not compile
		p, err = m.check(path, generated)
	}
	if err == nil {
		if m.src == nil {
			m.src = map[string]*types.Package{}
		}
		m.src[path] = p
	}
	return p, err
}

// generated reports whether gowrap wrote the file.
func generated(file string) bool {
	b, err := os.ReadFile(file)
	return err == nil && strings.HasPrefix(string(b), "// Code generated by gowrap")
}

func (m *Mod) check(path string, skip func(file string) bool) (*types.Package, error) {
	l := m.Pkgs[path]
	if l == nil {
		return nil, fmt.Errorf("%s is not listed", path)
	}
	var files []*ast.File
	for _, f := range l.GoFiles {
		name := filepath.Join(l.Dir, f)
		if skip != nil && skip(name) {
			continue
		}
		a, err := parser.ParseFile(m.Fset, name, nil, parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		files = append(files, a)
	}
	return (&types.Config{Importer: m.imp}).Check(path, m.Fset, files, nil)
}

// CheckDir type-checks the Go files of a directory of the module as the
// package path, without compiling it. The errors are all there are.
func (m *Mod) CheckDir(dir, path string) (*types.Package, []error) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	var files []*ast.File
	var errs []error
	for _, f := range fs {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		a, err := parser.ParseFile(m.Fset, f, nil, parser.SkipObjectResolution)
		if err != nil {
			errs = append(errs, err)
			continue
		}
		files = append(files, a)
	}
	if len(errs) > 0 {
		return nil, errs
	}
	p, _ := (&types.Config{Importer: m.imp, Error: func(err error) { errs = append(errs, err) }}).Check(path, m.Fset, files, nil)
	return p, errs
}

// Imports lists the import paths of the Go files of directories.
func Imports(dirs ...string) []string {
	seen := map[string]bool{}
	for _, d := range dirs {
		fs, _ := filepath.Glob(filepath.Join(d, "*.go"))
		for _, f := range fs {
			a, err := parser.ParseFile(token.NewFileSet(), f, nil, parser.ImportsOnly)
			if err != nil {
				continue
			}
			for _, i := range a.Imports {
				if p := strings.Trim(i.Path.Value, "\"`"); p != "C" {
					seen[p] = true
				}
			}
		}
	}
	var out []string
	for p := range seen {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}
