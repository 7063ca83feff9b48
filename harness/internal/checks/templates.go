package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"strings"

	"verifharness/internal/core"
)

var treeNames = []string{"log", "retry", "sub", "sub/inner", "a b", "templates", "templates/x", "log.tmpl", "шаблон", "100%d", "%s", "x%20y", "{{.}}", "-v", "README.md", "a#b", "a?b", "tree", "_x", ".hidden", "zz", "aa", "ZZ"}

// treeJSON makes an answer of the trees API and lists the templates it has.
func treeJSON(r *rand.Rand) ([]byte, []string) {
	var ents []any
	var want []string
	add := func(path, typ string) {
		e := map[string]any{"path": path, "mode": "100644", "type": typ, "sha": sha(r), "url": "https://api.github.com/repos/hexdigest/gowrap/git/blobs/" + sha(r)}
		if typ == "blob" {
			e["size"] = r.Intn(5000)
		}
		ents = append(ents, e)
	}
	others := []string{"README.md", "templates.go", "templates_tests", "templates_tests/x_test.go", "generator/templates/log", "x/templates/y", "Templates/log", "template", "cmd", "templates2/log", "atemplates/log", " templates/log"}
	names := append([]string(nil), treeNames...)
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	names = names[:r.Intn(len(names)+1)]
	if r.Intn(10) == 0 {
		for i := 0; i < 800; i++ {
			names = append(names, fmt.Sprintf("gen%d/t", i))
		}
	}
	if r.Intn(4) > 0 {
		add("templates", "tree")
	}
	for _, n := range names {
		for r.Intn(3) == 0 {
			add(others[r.Intn(len(others))], "blob")
		}
		typ := "blob"
		if n == "sub" || n == "templates" {
			typ = "tree"
		}
		add("templates/"+n, typ)
		want = append(want, n)
	}
	for r.Intn(2) == 0 {
		add(others[r.Intn(len(others))], "blob")
	}
	m := map[string]any{"sha": sha(r), "url": "https://api.github.com/x", "tree": ents, "truncated": false}
	if ents == nil {
		m["tree"] = []any{}
	}
	b, _ := json.Marshal(m)
	return b, want
}

var badTrees = []string{"", " ", "{", "[", "[]", "null", "{}", `{"tree":null}`, `{"tree":[]}`, `{"tree":{}}`, `{"tree":"x"}`, `{"tree":[5]}`, `{"tree":[{"path":5}]}`, `{"tree":[{}]}`, `{"message":"Not Found"}`, "<html></html>", `{"tree":[{"path":"templates/log"}]`, `{"tree":[{"path":"templates/log"}]} x`, `"templates/log"`, `{"tree":[{"path":"templates/log"},{"path":["x"]}]}`}

// listed returns the templates the output of template list names.
func listed(out string) []string {
	ls := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	var got []string
	for _, l := range ls[1:] {
		got = append(got, strings.TrimPrefix(l, "  "))
	}
	return got
}

func init() {
	reg("C10", func(c *core.Ctx) {
		c.Rule = "a case is one template list or copy over an answer or a fault, in process with a scripted client or with the command and a TLS server in the place of the hosts; non-trivial: distinct answers and faults"
		c.Assume = []string{"the URLs of GitHub's API are those the documentation names", "answers GitHub marks as truncated are outside"}
		scriptedTemplates(c)
		templateCommand(c)
		if c.Violations() == 0 {
			c.Need("lists", 300)
			c.Need("list_faults", 200)
			c.Need("copies", 300)
			c.Need("copy_faults", 200)
			c.Need("wire_lists", 10)
			c.Need("wire_copies", 15)
			c.Need("wire_list_faults", 10)
			c.Need("wire_copy_faults", 15)
		}
	})
}

func scriptedTemplates(c *core.Ctx) {
	bin := c.Driver("remote")
	dir := c.Dir("copies")
	r := rand.New(rand.NewSource(c.Seed * 6007))
	var ss []rScenario
	type exp struct {
		list        bool
		want        []string
		ok, loose   bool
		body        []byte
		dst         string
		old         string
		had         bool
		fault, what string
	}
	var ex []exp
	for i := 0; i < c.Pick(2400, 30000); i++ {
		s := rScenario{ID: i, Op: "cmd-template"}
		e := exp{ok: true}
		f := faults[r.Intn(len(faults))]
		if r.Intn(2) == 0 {
			e.list = true
			b, want := treeJSON(r)
			if r.Intn(5) == 0 {
				f = "json"
				b = []byte(badTrees[r.Intn(len(badTrees))])
				if r.Intn(3) == 0 {
					g, _ := treeJSON(r)
					b = g[:r.Intn(len(g)-1)]
				}
			}
			e.want, e.fault = want, f
			e.ok = f == "" && len(want) > 0
			s.Args = []string{"list"}
			if r.Intn(3) == 0 {
				s.Op = "list"
				e.ok = f == ""
				e.loose = f == "json" // an empty list is refused by the command
			}
			s.Script = []rAnswer{answer(r, b, f), answer(r, []byte("second"), "")}
			e.what = fmt.Sprintf("template list over %s", describe(s.Script))
		} else {
			e.body = content(r)
			name := templateNames[r.Intn(len(templateNames))]
			e.dst = filepath.Join(dir, fmt.Sprintf([]string{"t%d", "t%d", "t%d", " t%d", "t%d ", "T %d.tmpl", "t%d.go", "-t%d", "~t%d", "$t%d", "%%t%d\t", "t%d.gz", "täst%d"}[r.Intn(13)], i))
			s.Args = []string{"copy", name, e.dst}
			e.fault = f
			e.ok = f == ""
			if r.Intn(2) == 0 {
				e.had = true
				e.old = "old " + strings.Repeat("content ", r.Intn(20000))
				core.Write(dir, map[string]string{filepath.Base(e.dst): e.old})
			}
			switch r.Intn(3) {
			case 0:
				s.Args[1] = "https://example.com/" + fmt.Sprint(i)
				s.Script = []rAnswer{answer(r, e.body, f), answer(r, []byte("second"), "")}
			case 1:
				s.Script = []rAnswer{answer(r, commitsJSON(r, []string{sha(r)}), ""), answer(r, e.body, f), answer(r, []byte("third"), "")}
			default:
				b := commitsJSON(r, []string{sha(r)})
				if f == "" && r.Intn(2) == 0 {
					b = []byte(badCommits[r.Intn(len(badCommits))])
					e.ok = false
					e.fault = "json"
				}
				s.Script = []rAnswer{answer(r, b, f), answer(r, e.body, ""), answer(r, []byte("third"), "")}
			}
			if e.ok && r.Intn(15) == 0 { // nowhere to write to
				s.Args[2] = []string{filepath.Join(dir, "no/such/dir/x"), dir, "/dev/null/x"}[r.Intn(3)]
				e.ok = false
				e.fault = "write"
			}
			e.what = fmt.Sprintf("template copy %s to %s over %s", s.Args[1], s.Args[2], describe(s.Script))
		}
		ss, ex = append(ss, s), append(ex, e)
	}
	res := runDriver(c, bin, dir, ss)
	for i, s := range ss {
		e := ex[i]
		x, ok := res[i]
		if !ok {
			if c.Violations() == 0 {
				core.Fail("no result of scenario %d", i)
			}
			continue
		}
		js, _ := json.MarshalIndent(map[string]any{"scenario": s, "result": x}, "", " ")
		kind := "copy"
		if e.list {
			kind = "list"
		}
		bad := func(id, format string, a ...any) {
			c.Finding(fmt.Sprintf("%s-%s/%s/%d", kind, id, e.fault, i), e.what+": "+fmt.Sprintf(format, a...), map[string]string{"scenario.json": string(js)})
		}
		if x.Panic != "" {
			bad("panic", "panics: %s", x.Panic)
			continue
		}
		for j, q := range x.Requests {
			if q.HasBody && q.Closed == 0 {
				bad("unclosed", "the body of request %d is not closed", j)
			}
		}
		if !e.loose && e.ok != (x.Err == "") {
			bad("outcome", "error %q, want success %v", x.Err, e.ok)
			continue
		}
		if e.list {
			if len(x.Requests) != 1 || !strings.HasPrefix(x.Requests[0].URL, "https://api.github.com/repos/hexdigest/gowrap/git/trees/") {
				bad("request", "the requests are %v", x.Requests)
			}
			switch {
			case s.Op == "list" && e.loose:
				if len(x.List) > 0 {
					bad("invented", "gives %q", x.List)
				}
			case !e.ok:
				if len(x.List) > 0 || strings.Contains(x.Out, "  ") {
					bad("partial", "fails but gives %q %q", x.List, core.Clip(x.Out, 300))
				}
				c.Count("list_faults", 1)
			default:
				got := x.List
				if s.Op != "list" {
					got = listed(x.Out)
				}
				if strings.Join(got, "\n") != strings.Join(e.want, "\n") {
					bad("entries", "lists %q, want %q", clipList(got), clipList(e.want))
				}
				c.Count("entries_listed", len(got))
				c.Count("lists", 1)
			}
		} else {
			b, err := os.ReadFile(e.dst)
			switch {
			case e.ok && (err != nil || string(b) != string(e.body)):
				bad("bytes", "the file has %d bytes, the template %d: %s", len(b), len(e.body), firstDiff(string(e.body), string(b)))
			case !e.ok && (err == nil) != e.had:
				bad("created", "fails but the destination exists: %v, it did before: %v", err == nil, e.had)
			case !e.ok && string(b) != e.old:
				bad("overwritten", "fails but the destination changed from %d to %d bytes", len(e.old), len(b))
			case e.ok && len(x.Requests) > 0 && !strings.Contains(x.Out, x.Requests[len(x.Requests)-1].URL):
				bad("source", "does not tell where the template is from: %q, %s", x.Out, x.Requests[len(x.Requests)-1].URL)
			}
			if e.ok {
				c.Count("copies", 1)
			} else {
				c.Count("copy_faults", 1)
			}
		}
		c.Eval(e.what + string(e.body) + string(s.Script[0].Body))
	}
}

func clipList(l []string) []string {
	if len(l) > 30 {
		return append(append([]string(nil), l[:30]...), "...")
	}
	return l
}

func templateCommand(c *core.Ctx) {
	ca := newAuthority(c.Dir("ca"))
	root := c.Dir("e2e")
	gw := c.Gowrap()
	core.Parallel(c.Pick(160, 2000), func(i int) {
		r := rand.New(rand.NewSource(c.Seed*52361 + int64(i)))
		dir := filepath.Join(root, fmt.Sprintf("w%d", i))
		core.Must(os.MkdirAll(dir, 0o755), "dir")
		if i%2 == 0 {
			b, want := treeJSON(r)
			f := wireFaults[r.Intn(6)]
			if r.Intn(2) == 0 {
				f = wireFaults[r.Intn(len(wireFaults))]
			} else if r.Intn(3) == 0 {
				b, want = []byte(badTrees[r.Intn(len(badTrees))]), nil
			}
			st := errStatuses[r.Intn(len(errStatuses))]
			p := newProxy(ca, func(n int, w http.ResponseWriter, r *http.Request) { serveFault(w, r, f, st, b) })
			defer p.close()
			full := r.Intn(10) == 0
			args := []string{gw, "template", "list"}
			if full {
				args = []string{"/bin/sh", "-c", "exec " + gw + " template list > /dev/full"}
			}
			res := core.Run(core.Cmd{Dir: dir, Env: p.env(), Args: args})
			ok := goodFault(f) && len(want) > 0 && !full
			rep := map[string]string{"answer.json": string(b), "out.txt": res.Out, "err.txt": res.Err}
			id := fmt.Sprintf("%s-%d-%v/%d", f, st, full, i)
			switch {
			case crashed(res.Err):
				c.Finding("list-panic/"+id, "template list panics:\n"+core.Clip(res.Err, 800), rep)
			case ok && res.Code != 0, !ok && res.Code != 1:
				c.Finding("list-status/"+id, fmt.Sprintf("template list over an answer %q with fault %q (status %d, full device %v) ends with status %d: %s", core.Clip(string(b), 200), f, st, full, res.Code, core.Clip(res.Err, 300)), rep)
			case ok && strings.Join(listed(res.Out), "\n") != strings.Join(want, "\n"):
				c.Finding("list-entries/"+id, fmt.Sprintf("template list gives %q, want %q", clipList(listed(res.Out)), clipList(want)), rep)
			case !ok && res.Out != "":
				c.Finding("list-partial/"+id, fmt.Sprintf("template list fails but prints %q", core.Clip(res.Out, 300)), rep)
			}
			if ok {
				c.Count("wire_lists", 1)
			} else {
				c.Count("wire_list_faults", 1)
			}
			c.Eval(fmt.Sprint("list", f, st, full, string(b)))
			return
		}
		k := wire(r, content(r))
		p := k.serve(ca)
		defer p.close()
		dst := filepath.Join(dir, []string{"t", "имя t", "x.tmpl"}[r.Intn(3)])
		had := r.Intn(2) == 0
		if had {
			core.Must(os.WriteFile(dst, []byte(strings.Repeat("old", r.Intn(30000))), []os.FileMode{0o644, 0o600, 0o755}[r.Intn(3)]), "old")
		}
		before := snapshot(dir)
		res := core.Run(core.Cmd{Dir: dir, Env: p.env(), Args: []string{gw, "template", "copy", k.ref, dst}})
		b, _ := os.ReadFile(dst)
		ch := changes(before, snapshot(dir))
		rep := map[string]string{"case.txt": k.String() + fmt.Sprintf("\nrequests %q\nexit %d\n%s%s", p.requests(), res.Code, res.Out, res.Err)}
		bad := func(kind, format string, a ...any) {
			c.Finding(fmt.Sprintf("copy-%s/%s/%s-%s/%d", kind, k.ref, k.f1, k.f2, i), "gowrap template copy "+k.String()+": "+fmt.Sprintf(format, a...), rep)
		}
		if crashed(res.Err) {
			bad("panic", "panics: %s", core.Clip(res.Err, 800))
			return
		}
		if why := k.judge(p.requests()); why != "" {
			bad("requests", "%s", why)
		}
		if k.ok {
			switch {
			case res.Code != 0:
				bad("refused", "exit status %d: %s", res.Code, core.Clip(res.Err, 500))
			case string(b) != string(k.tmpl):
				bad("bytes", "the file has %d bytes, the template %d: %s", len(b), len(k.tmpl), firstDiff(string(k.tmpl), string(b)))
			case len(ch) > 1 || len(ch) == 1 && !strings.Contains(ch[0], filepath.Base(dst)):
				bad("changes", "%v", ch)
			}
			c.Count("wire_copies", 1)
		} else {
			if res.Code != 1 {
				bad("accepted", "exit status %d", res.Code)
			}
			if len(ch) > 0 {
				bad("changes", "fails, but %v", ch)
			}
			c.Count("wire_copy_faults", 1)
		}
		c.Eval("copy" + k.String() + string(k.tmpl))
		c.Sample(map[string]any{"copy": k.ref, "faults": k.f1 + "," + k.f2, "exit": res.Code, "bytes": len(b)})
	})
}
