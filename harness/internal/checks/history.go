package checks

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"verifharness/internal/core"
)

// hsrc is a source package that is edited. Types of signatures are written
// L:Name (the package's own), D:Name (of the other package) or as in Go.
type hsrc struct {
	r      *rand.Rand
	dep    string // directory and name of the other package
	alias  string // how the source imports it, "" without a name
	local  []string
	far    []string
	decl   map[string]string // body of a type declaration
	ifaces map[string]*hiface
	place  map[string]string // file of a declaration
	n      int
	tmpl   int // version of the template
	edits  []string
}

type hiface struct {
	doc     string
	embeds  []string
	methods []hmeth
}

type hmeth struct {
	name            string
	doc             string
	params, results []string
	variadic        bool
}

var hfiles = []string{"a.go", "iface.go", "zz.go"}

func (s *hsrc) fresh(p string) string { s.n++; return fmt.Sprintf("%s%d", p, s.n) }

func (s *hsrc) typ() string {
	all := []string{"int", "string", "error", "interface{}", "time.Duration", "io.Reader", "*url.URL", "func(int) error", "chan<- bool", "map[string][]byte", "[3]int", "struct{ A int }"}
	for _, l := range s.local {
		all = append(all, "L:"+l, "*L:"+l, "[]L:"+l, "map[string]*L:"+l)
	}
	for _, l := range s.far {
		all = append(all, "D:"+l, "*D:"+l, "[]*D:"+l, "func(D:"+l+") int")
	}
	return all[s.r.Intn(len(all))]
}

func (s *hsrc) sig(m *hmeth) {
	m.params, m.results, m.variadic = nil, nil, false
	if s.r.Intn(2) == 0 {
		m.params = append(m.params, "context.Context")
	}
	for n := s.r.Intn(3); n > 0; n-- {
		m.params = append(m.params, s.typ())
	}
	if s.r.Intn(4) == 0 {
		m.params = append(m.params, s.typ())
		m.variadic = true
	}
	for n := s.r.Intn(2); n > 0; n-- {
		m.results = append(m.results, s.typ())
	}
	if s.r.Intn(2) == 0 {
		m.results = append(m.results, "error")
	}
}

func newHsrc(r *rand.Rand) *hsrc {
	s := &hsrc{r: r, dep: "dep", decl: map[string]string{}, ifaces: map[string]*hiface{"Main": {doc: "Main is decorated"}, "Emb": {doc: "Emb is embedded"}, "Other": {doc: "Other is not"}}, place: map[string]string{}}
	for i := 0; i < 3; i++ {
		s.addType(i == 0)
	}
	for _, n := range []string{"Emb", "Main", "Other"} {
		for i := 0; i < 2; i++ {
			s.addMethod(n)
		}
		s.place[n] = hfiles[r.Intn(3)]
	}
	if r.Intn(2) == 0 {
		s.ifaces["Main"].embeds = []string{"Emb"}
	}
	s.edits = nil
	return s
}

func (s *hsrc) addType(far bool) {
	n := s.fresh("T")
	if far {
		s.far = append(s.far, n)
	} else {
		s.local = append(s.local, n)
		s.place[n] = hfiles[s.r.Intn(3)]
	}
	s.decl[n] = []string{"struct{ A int }", "int", "func(int) string", "map[string]bool", "[2]string"}[s.r.Intn(5)]
	s.note("add type " + n)
}

func (s *hsrc) addMethod(i string) {
	m := hmeth{name: s.fresh("M")}
	s.sig(&m)
	s.ifaces[i].methods = append(s.ifaces[i].methods, m)
	s.note("add method " + i + "." + m.name)
}

func (s *hsrc) note(e string) { s.edits = append(s.edits, e) }

// drop replaces the types of the signatures that mention a type.
func (s *hsrc) each(f func(m *hmeth)) {
	for _, n := range []string{"Emb", "Main", "Other"} {
		for i := range s.ifaces[n].methods {
			f(&s.ifaces[n].methods[i])
		}
	}
}

// word tells whether a type mentions the marked name.
func mentions(ts []string, mark string) bool {
	for _, t := range ts {
		for i := strings.Index(t, mark); i >= 0; {
			rest := t[i+len(mark):]
			if rest == "" || !strings.ContainsAny(rest[:1], "0123456789") {
				return true
			}
			j := strings.Index(rest, mark)
			if j < 0 {
				break
			}
			i += len(mark) + j
		}
	}
	return false
}

func swapName(ts []string, from, to string) {
	for i, t := range ts {
		if mentions([]string{t}, from) {
			ts[i] = strings.ReplaceAll(t, from, to)
		}
	}
}

// edit makes one random change.
func (s *hsrc) edit() {
	r := s.r
	name := []string{"Main", "Main", "Main", "Emb"}[r.Intn(4)]
	i := s.ifaces[name]
	switch r.Intn(15) {
	case 0:
		s.addMethod(name)
	case 1:
		if len(i.methods) > 1 {
			j := r.Intn(len(i.methods))
			s.note("remove method " + i.methods[j].name)
			i.methods = append(i.methods[:j:j], i.methods[j+1:]...)
		}
	case 2:
		m := &i.methods[r.Intn(len(i.methods))]
		n := s.fresh("M")
		s.note("rename method " + m.name + " to " + n)
		m.name = n
	case 3, 4:
		m := &i.methods[r.Intn(len(i.methods))]
		s.sig(m)
		s.note("retype method " + m.name)
	case 5:
		s.addType(r.Intn(2) == 0)
	case 6, 7: // remove a type
		far := r.Intn(2) == 0 && len(s.far) > 1
		mark := "L:"
		l := &s.local
		if far {
			mark, l = "D:", &s.far
		}
		if len(*l) < 2 {
			return
		}
		j := r.Intn(len(*l))
		n := (*l)[j]
		*l = append((*l)[:j:j], (*l)[j+1:]...)
		s.each(func(m *hmeth) {
			for mentions(m.params, mark+n) || mentions(m.results, mark+n) {
				s.sig(m)
			}
		})
		delete(s.decl, n)
		s.note("remove type " + mark + n)
	case 8: // rename a type
		far := r.Intn(2) == 0
		mark, l := "L:", s.local
		if far {
			mark, l = "D:", s.far
		}
		j := r.Intn(len(l))
		o, n := l[j], s.fresh("T")
		l[j] = n
		s.decl[n], s.place[n] = s.decl[o], s.place[o]
		delete(s.decl, o)
		s.each(func(m *hmeth) {
			swapName(m.params, mark+o, mark+n)
			swapName(m.results, mark+o, mark+n)
		})
		s.note("rename type " + mark + o + " to " + n)
	case 9: // move declarations
		var ns []string
		for n := range s.place {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		n := ns[r.Intn(len(ns))]
		s.place[n] = hfiles[r.Intn(3)]
		s.note("move " + n + " to " + s.place[n])
	case 10: // embed or not
		i := s.ifaces["Main"]
		if len(i.embeds) > 0 {
			i.embeds = nil
		} else {
			i.embeds = []string{"Emb"}
		}
		s.note("embeds " + fmt.Sprint(i.embeds))
	case 11: // move the other package
		s.dep = []string{"dep", "model", "api/v2", "dep2"}[r.Intn(4)]
		s.note("other package is " + s.dep)
	case 12:
		s.alias = []string{"", "d", "types"}[r.Intn(3)]
		s.note("imported as " + s.alias)
	case 14:
		s.tmpl++
		s.note(fmt.Sprint("edit template ", s.tmpl))
	case 13: // a type changes packages
		if len(s.far) > 1 && r.Intn(2) == 0 {
			n := s.far[0]
			s.far = s.far[1:]
			s.local = append(s.local, n)
			s.place[n] = hfiles[r.Intn(3)]
			s.each(func(m *hmeth) { swapName(m.params, "D:"+n, "L:"+n); swapName(m.results, "D:"+n, "L:"+n) })
			s.note("move type here " + n)
		} else if len(s.local) > 1 {
			n := s.local[0]
			s.local = s.local[1:]
			s.far = append(s.far, n)
			delete(s.place, n)
			s.each(func(m *hmeth) { swapName(m.params, "L:"+n, "D:"+n); swapName(m.results, "L:"+n, "D:"+n) })
			s.note("move type away " + n)
		}
	}
}

func (s *hsrc) files() map[string]string {
	body := map[string]string{}
	q := filepath.Base(s.dep)
	if q == "v2" {
		q = "api"
	}
	depName := q
	if s.alias != "" {
		q = s.alias
	}
	rt := func(t string) string { return strings.ReplaceAll(strings.ReplaceAll(t, "L:", ""), "D:", q+".") }
	for _, n := range s.local {
		body[s.place[n]] += "type " + n + " " + s.decl[n] + "\n\n"
	}
	for _, n := range []string{"Emb", "Main", "Other"} {
		i := s.ifaces[n]
		b := "// " + i.doc + "\ntype " + n + " interface {\n"
		for _, e := range i.embeds {
			b += "\t" + e + "\n"
		}
		for _, m := range i.methods {
			var ps, rs []string
			for j, p := range m.params {
				p = rt(p)
				if m.variadic && j == len(m.params)-1 {
					p = "..." + p
				}
				ps = append(ps, fmt.Sprintf("p%d %s", j, p))
			}
			for _, x := range m.results {
				rs = append(rs, rt(x))
			}
			b += "\t" + m.name + "(" + strings.Join(ps, ", ") + ") (" + strings.Join(rs, ", ") + ")\n"
		}
		body[s.place[n]] += b + "}\n\n"
	}
	out := map[string]string{}
	for f, b := range body {
		h := "package src\n\n"
		for _, p := range []string{"context", "io", "net/url", "time"} {
			if strings.Contains(b, filepath.Base(p)+".") {
				h += "import \"" + p + "\"\n"
			}
		}
		if strings.Contains(b, q+".") {
			h += "import " + s.alias + " \"m/" + s.dep + "\"\n"
		}
		out["src/"+f] = h + "\n" + b
	}
	d := "package " + depName + "\n\n"
	for _, n := range s.far {
		d += "type " + n + " " + s.decl[n] + "\n\n"
	}
	out[s.dep+"/dep.go"] = d
	return out
}

const hprobe = `{{$d := .Vars.Dec}}type {{$d}} struct{ base {{.Interface.Type}} }

// {{$d}}Version is the version of the template
const {{$d}}Version = VERSION

var _ {{.Interface.Type}} = {{$d}}{}

{{range .Interface.Methods}}
{{range .Doc}}{{.}}
{{end}}func (d {{$d}}) {{.Declaration}} {
	{{.Pass "d.base."}}
}

{{end}}
`

// longProc is a process that generates on request.
type longProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *json.Decoder
	err bytes.Buffer
}

func startLong(bin, dir string) (*longProc, error) {
	p := &longProc{cmd: exec.Command(bin)}
	p.cmd.Dir, p.cmd.Env, p.cmd.Stderr = dir, core.Env(core.GoRoot), &p.err
	in, err := p.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := p.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	p.in, p.out = in, json.NewDecoder(out)
	return p, p.cmd.Start()
}

// generate returns the error message of the request.
func (p *longProc) generate(dir string, args []string) (string, error) {
	t := time.AfterFunc(2*time.Minute, func() { _ = p.cmd.Process.Kill() })
	defer t.Stop()
	if err := json.NewEncoder(p.in).Encode(map[string]any{"Dir": dir, "Args": args}); err != nil {
		return "", err
	}
	var r struct{ Err string }
	if err := p.out.Decode(&r); err != nil {
		_ = p.cmd.Wait()
		return "", fmt.Errorf("%v\n%s", err, core.Clip(p.err.String(), 1500))
	}
	return r.Err, nil
}

func (p *longProc) stop() {
	_ = p.in.Close()
	_ = p.cmd.Process.Kill()
	_ = p.cmd.Wait()
}

type hout struct {
	o    string
	args []string
}

func init() {
	reg("C28", func(c *core.Ctx) {
		c.Rule = "a case is one step of a history: some edits of the sources, then a regeneration of all outputs; non-trivial: distinct sources"
		c.Assume = []string{"the go command and compiler judge the packages", "packages that have decorators are not renamed"}
		tm := filepath.Join(core.Repo, "templates")
		n := c.Pick(10, 120)
		steps := c.Pick(5, 12)
		gw := c.Gowrap()
		long := c.Driver("longlived")
		core.Parallel(n, func(h int) {
			r := rand.New(rand.NewSource(c.Seed*104729 + int64(h)))
			s := newHsrc(r)
			dir := c.Dir(fmt.Sprintf("h%d", h))
			gen := func(d string) string { return filepath.Join(d, "p.tmpl") }
			kinds := []string{"retry", "log", "timeout", "ratelimit", "syncpool", "fallback", "robinpool", "circuitbreaker", "validate"}
			r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
			outs := []hout{
				{"src/main_" + kinds[0] + ".go", []string{"-i", "Main", "-t", tm + "/" + kinds[0]}},
				{"src/main_probe.go", []string{"-i", "Main", "-t", gen("."), "-v", "Dec=DecOwn"}},
				{"src/emb_" + kinds[1] + ".go", []string{"-i", "Emb", "-t", tm + "/" + kinds[1]}},
				{"src/main_mock_test.go", []string{"-i", "Main", "-t", gen("."), "-v", "Dec=DecTest"}},
				{"dec/main_" + kinds[2] + ".go", []string{"-i", "Main", "-t", tm + "/" + kinds[2]}},
				{"dec/main_probe.go", []string{"-i", "Main", "-t", gen("."), "-v", "Dec=DecFar"}},
				{"dec/x_test.go", []string{"-i", "Emb", "-t", gen("."), "-v", "Dec=DecFarTest"}},
			}
			r.Shuffle(len(outs), func(i, j int) { outs[i], outs[j] = outs[j], outs[i] })
			outs = outs[:3+r.Intn(len(outs)-2)]
			isOut := map[string]bool{}
			for _, o := range outs {
				isOut[o.o] = true
			}
			put := func(d string) { // the sources as they are now
				for f := range core.ReadTree(d) {
					if strings.HasSuffix(f, ".go") && !isOut[f] {
						_ = os.Remove(filepath.Join(d, f))
					}
				}
				core.Write(d, s.files())
				core.Write(d, map[string]string{"go.mod": "module m\n\ngo 1.24\n", "p.tmpl": strings.Replace(hprobe, "VERSION", fmt.Sprint(s.tmpl), 1)})
				if s.dep != "dep" {
					removeAll(filepath.Join(d, "dep"))
				}
			}
			command := func(d string, o hout) core.Result {
				return core.Run(core.Cmd{Dir: d, Env: core.Env(core.GoRoot), Args: append([]string{gw, "gen", "-p", "m/src", "-o", o.o}, o.args...)})
			}
			// one process that stays alive generates in some steps
			proc, err := startLong(long, dir)
			core.Must(err, "longlived")
			defer proc.stop()
			log := ""
			for step := 0; step <= steps; step++ {
				how := []string{"command", "process"}[r.Intn(2)]
				s.edits = nil
				if step > 0 {
					for e := 1 + r.Intn(4); e > 0; e-- {
						s.edit()
					}
					how = []string{"command", "generate", "process", "process"}[r.Intn(4)]
				}
				put(dir)
				log += fmt.Sprintf("step %d: %s, then %s\n", step, strings.Join(s.edits, ", "), how)
				report := func(id, what string, outFile string) {
					b, _ := json.MarshalIndent(core.ReadTree(dir), "", " ")
					o, _ := os.ReadFile(filepath.Join(dir, outFile))
					c.Finding(fmt.Sprintf("%s/h%d/step%d", id, h, step), what+"\nhistory:\n"+core.Clip(log, 2000), map[string]string{"tree.json": string(b), "history.txt": log, "out.go.txt": string(o)})
				}
				if how == "generate" {
					e := core.Env(core.GoRoot)
					for i, v := range e {
						if strings.HasPrefix(v, "PATH=") {
							e[i] = "PATH=" + filepath.Dir(gw) + ":" + v[5:]
						}
					}
					res := core.Run(core.Cmd{Dir: dir, Env: e, Args: []string{filepath.Join(core.GoRoot, "bin/go"), "generate", "./..."}})
					if res.Code != 0 {
						report("go-generate", "go generate over the outputs of the previous step fails:\n"+core.Clip(res.Err+res.Out, 1000), outs[0].o)
						return
					}
				} else if how == "process" {
					for _, i := range r.Perm(len(outs)) {
						msg, err := proc.generate(dir, append([]string{"-p", "m/src", "-o", outs[i].o}, outs[i].args...))
						if err != nil {
							report("process", fmt.Sprintf("a process that generates ends in gen -o %s %v: %v", outs[i].o, outs[i].args, err), outs[i].o)
							return
						}
						if msg != "" {
							report("regenerate-process", fmt.Sprintf("in a process that stays alive, gen -o %s %v over the outputs of the previous step fails:\n%s", outs[i].o, outs[i].args, core.Clip(msg, 1000)), outs[i].o)
							return
						}
					}
				} else {
					for _, i := range r.Perm(len(outs)) {
						if res := command(dir, outs[i]); res.Code != 0 {
							report("regenerate", fmt.Sprintf("gowrap gen -o %s %v over the outputs of the previous step fails:\n%s", outs[i].o, outs[i].args, core.Clip(res.Err, 1000)), outs[i].o)
							return
						}
					}
				}
				if res := core.Run(core.Cmd{Dir: dir, Env: core.Env(core.GoRoot), Args: []string{filepath.Join(core.GoRoot, "bin/go"), "vet", "-copylocks", "./..."}}); res.Code != 0 {
					report("compile", "the packages do not compile after the regeneration:\n"+core.Clip(res.Err, 1200), outs[0].o)
					return
				}
				// from scratch
				fresh := c.Dir(fmt.Sprintf("h%d_%d", h, step))
				put(fresh)
				for _, i := range r.Perm(len(outs)) {
					o := outs[i]
					if res := command(fresh, o); res.Code != 0 {
						report("scratch", fmt.Sprintf("gowrap gen -o %s %v fails from scratch:\n%s", o.o, o.args, core.Clip(res.Err, 1000)), o.o)
						return
					}
					a, _ := os.ReadFile(filepath.Join(dir, o.o))
					b, _ := os.ReadFile(filepath.Join(fresh, o.o))
					if string(a) != string(b) {
						report("bytes", fmt.Sprintf("%s differs from what a generation from scratch gives: %s", o.o, firstDiff(string(b), string(a))), o.o)
						return
					}
					c.Count("outputs_compared", 1)
				}
				removeAll(fresh)
				for _, e := range s.edits {
					c.Count("edit_"+strings.Join(strings.Fields(e)[:2], "_"), 1)
				}
				c.Count("steps_by_"+how, 1)
				b, _ := json.Marshal(s.files())
				c.Eval(string(b) + fmt.Sprint(isOut))
				c.Sample(map[string]any{"history": h, "step": step, "edits": s.edits, "by": how, "outputs": len(outs)})
			}
			c.Count("histories", 1)
		})
		if c.Violations() == 0 {
			c.Need("histories", n)
			c.Need("outputs_compared", n*steps*2)
			c.Need("steps_by_generate", n/2)
			c.Need("steps_by_process", n)
		}
	})
}
