package checks

import (
	"bytes"
	"compress/gzip"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"strings"

	"verifharness/internal/core"
)

// what the driver of harness/drivers/remote reads and writes
type rAnswer struct {
	Transport string
	Status    int
	Body      []byte
	ReadErr   int
	CloseErr  bool
	Chunk     int
	EOFLater  bool
}

type rScenario struct {
	ID     int
	Op     string
	Path   string
	Args   []string
	Script []rAnswer
}

type rResult struct {
	ID       int
	Body     []byte
	URL      string
	List     []string
	Out      string
	Err      string
	Usage    bool
	Panic    string
	Requests []struct {
		Method, URL    string
		Closed         int
		ReadAfterClose bool
		ToEnd          bool
		HasBody        bool
	}
}

func runDriver(c *core.Ctx, bin, dir string, ss []rScenario) map[int]rResult {
	out := map[int]rResult{}
	const parts = 8
	res := make([]core.Result, parts)
	core.Parallel(parts, func(i int) {
		var in strings.Builder
		for j := i; j < len(ss); j += parts {
			b, err := json.Marshal(ss[j])
			core.Must(err, "scenario")
			in.Write(append(b, '\n'))
		}
		res[i] = core.Run(core.Cmd{Dir: dir, Env: core.Env(core.GoRoot), Args: []string{bin}, Stdin: in.String()})
	})
	for _, r := range res {
		dec := json.NewDecoder(strings.NewReader(r.Out))
		for {
			var x rResult
			if dec.Decode(&x) != nil {
				break
			}
			out[x.ID] = x
		}
		if r.Code != 0 && !crashed(r.Err) {
			core.Fail("the driver fails: %s", r.Err)
		}
		if r.Code != 0 {
			c.Finding("driver-crash", "the driver of the loader crashes:\n"+core.Clip(r.Err, 1500), nil)
		}
	}
	return out
}

// sha makes up the name of a commit.
func sha(r *rand.Rand) string {
	b := make([]byte, 20)
	r.Read(b)
	return fmt.Sprintf("%x", b)
}

// commitsJSON makes an answer of the commits API.
func commitsJSON(r *rand.Rand, shas []string) []byte {
	var cs []any
	for _, s := range shas {
		cs = append(cs, map[string]any{
			"sha": s, "node_id": "C_kw" + sha(r), "url": "https://api.github.com/repos/hexdigest/gowrap/commits/" + s,
			"commit":  map[string]any{"author": map[string]any{"name": randString(r), "date": "2024-01-02T03:04:05Z"}, "message": randString(r), "tree": map[string]any{"sha": sha(r)}, "comment_count": r.Intn(5)},
			"parents": []any{map[string]any{"sha": sha(r)}, map[string]any{"sha": sha(r)}},
			"author":  nil,
		})
	}
	var b []byte
	if r.Intn(2) == 0 {
		b, _ = json.MarshalIndent(cs, "", "  ")
	} else {
		b, _ = json.Marshal(cs)
	}
	return b
}

// content makes the bytes of a template.
func content(r *rand.Rand) []byte {
	if r.Intn(200) == 0 {
		n := []int{1 << 16, 1 << 20, 1 << 21}[r.Intn(3)] + r.Intn(3) - 1
		return append(bytes.Repeat([]byte("x"), n-1), '\n')
	}
	switch r.Intn(7) {
	case 0:
		return []byte{}
	case 1:
		return []byte("\xef\xbb\xbfimport (\r\n\t\"time\"\r\n)\r\n")
	case 2:
		b := make([]byte, r.Intn(70000))
		r.Read(b)
		return b
	case 3:
		return []byte("no newline at the end \xff\xfe %s %d {{.Interface.Name}}")
	case 4:
		return bytes.Repeat([]byte("{{/* "+randString(r)+" */}}\n"), r.Intn(3000))
	case 5:
		return []byte("\n\n  404: Not Found\n\n")
	}
	return []byte("type X{{.Interface.Name}} struct{}\n" + randString(r))
}

var templateNames = []string{"http", "https", "httptrace", "http-log.tmpl", "https:x", "http:log", "file", "file.tmpl", "filelog", "log", "retry", "elasticapm", "sub/dir/tmpl", "a-b_c.d", "log.tmpl", "log copy", "log#v2", "log?x=1", "log&ref=evil", "100%", "a%20b", "a%2Fb", "c++", "a=b", "a:b", "шаблон", "日本/語", "a+b", "a;b", "/abs/olute", "x'y", "(x)", "[x]", "~x", "a@b", "a,b$c!*"}

var badStatuses = []int{100, 101, 199, 201, 202, 203, 204, 205, 206, 207, 226, 300, 301, 302, 303, 304, 307, 308, 400, 401, 403, 404, 409, 410, 422, 429, 451, 499, 500, 501, 502, 503, 504, 520, 599, 0, -1}

var badCommits = []string{"", " ", "[", "{", "{}", "null", "[]", " [ ] ", "[{}]", "[null]", `[{"sha":""}]`, `[{"sha":null}]`, `[{"sha":5}]`, `[{"sha":["x"]}]`, `{"message":"Not Found","documentation_url":"https://docs.github.com"}`, `{"message":"API rate limit exceeded"}`, "<html><body>proxy</body></html>", `[{"sha":"abcdef"}] x`, `[{"sha":"abcdef"}`, `[{"sha":"abc`, `"abcdef"`, "5", "true", "\xef\xbb\xbf[]", `[{"commit":{"tree":{"sha":"abcdef"}}}]`, `[["abcdef"]]`, `["abcdef"]`,
	`[{"sha":""},{"sha":"0123456789abcdef0123456789abcdef01234567"}]`, `[{},{"sha":"0123456789abcdef0123456789abcdef01234567"}]`, `[null,{"sha":"0123456789abcdef0123456789abcdef01234567"}]`}

// answers makes a good answer or a fault of a kind; good tells which.
func answer(r *rand.Rand, good []byte, fault string) rAnswer {
	a := rAnswer{Status: 200, Body: good, ReadErr: -1, EOFLater: r.Intn(2) == 0}
	if r.Intn(3) == 0 {
		a.Chunk = 1 + r.Intn(700)
	}
	switch fault {
	case "transport":
		a.Transport = "connection refused: " + randString(r)
	case "status":
		a.Status = badStatuses[r.Intn(len(badStatuses))]
	case "truncated":
		if len(good) == 0 {
			a.Body = []byte("x")
		}
		a.ReadErr = r.Intn(len(a.Body) + 1)
	}
	return a
}

var faults = []string{"", "", "transport", "status", "truncated"}

type expectation struct {
	reqs  []string // path of the template or the whole URL
	shas  map[string]bool
	ok    bool
	loose bool // whether it succeeds is not judged
	body  []byte
	url   string
	name  string
	fault string
	path  bool
}

func init() {
	reg("C09", func(c *core.Ctx) {
		c.Rule = "a case is one resolution of a template reference over a history of answers and faults, in process with a scripted client or with the command and a TLS server in the place of the hosts; non-trivial: distinct references, answers and faults"
		c.Assume = []string{"the URLs of GitHub's API are those the documentation names", "control characters and dot segments in names are outside"}
		scripted(c)
		remoteCommand(c)
		if c.Violations() == 0 {
			c.Need("scripted_loads", c.Pick(9000, 60000))
			c.Need("scripted_faults", 1000)
			c.Need("commands_succeeded", c.Pick(20, 200))
			c.Need("commands_failed_on_faults", c.Pick(20, 200))
		}
	})
}

func scripted(c *core.Ctx) {
	bin := c.Driver("remote")
	dir := c.Dir("files")
	r := rand.New(rand.NewSource(c.Seed * 9973))
	git := core.Run(core.Cmd{Dir: dir, Env: core.Env(core.GoRoot), Args: []string{"git", "init", "-q", "."}})
	inGit := git.Code == 0
	var names []string
	for i := 0; i < 12; i++ {
		n := fmt.Sprintf("deep/t%d.tmpl", i)
		core.Write(dir, map[string]string{n: string(content(r))})
		names = append(names, n)
	}
	core.Write(dir, map[string]string{"sub/here.tmpl": "here", "here.tmpl": "root", "log": "a local file the loader does not look at"})
	sub := filepath.Join(dir, "sub")
	var ss []rScenario
	var ex []expectation
	for i := 0; i < c.Pick(9000, 60000); i++ {
		s := rScenario{ID: i, Op: "load"}
		e := expectation{ok: true}
		switch k := r.Intn(10); {
		case k < 2: // URL
			scheme := []string{"https://", "http://"}[r.Intn(2)]
			s.Path = scheme + []string{"example.com/t", "example.com:8443/a/b.tmpl?x=1&y=%20z", "127.0.0.1/x", "user:pw@example.com/x", "example.com/a%2Fb", "example.com", "example.com/x#frag", "[::1]:80/x", "raw.githubusercontent.com/hexdigest/gowrap/master/templates/log", "api.github.com/repos", "host/https://other/x", "example.com/file:///etc/x"}[r.Intn(12)]
			f := faults[r.Intn(len(faults))]
			b := content(r)
			s.Script = []rAnswer{answer(r, b, f), answer(r, []byte("second"), ""), answer(r, []byte("third"), "")}
			e.reqs, e.url, e.body, e.ok, e.fault = []string{s.Path}, s.Path, b, f == "", f
		case k < 4: // file
			s.Script = []rAnswer{answer(r, []byte("remote"), "")}
			n := names[r.Intn(len(names))]
			b, _ := os.ReadFile(filepath.Join(dir, n))
			e.body = b
			switch r.Intn(6) {
			case 0:
				s.Path = "file://" + filepath.Join(dir, n)
				e.url = filepath.Join(dir, n)
			case 1:
				s.Path = "file://../" + n
				e.url = "../" + n
			case 2:
				s.Path = "file://here.tmpl" // of the working directory before that of the repository
				e.url, e.body = "here.tmpl", []byte("here")
			case 3: // of the git repository
				s.Path = []string{"file://", "file:///", "file://./"}[r.Intn(3)] + n
				e.url = filepath.Join(dir, n)
				e.ok = inGit
				e.path = true
			case 4:
				s.Path = "file://" + []string{"", "/"}[r.Intn(2)] + "none" + fmt.Sprint(i)
				e.ok = false
			default:
				s.Path = "file://" + sub // a directory
				e.ok = false
			}
		default:
			e.name = templateNames[r.Intn(len(templateNames))]
			s.Path = e.name
			n := 1
			if r.Intn(4) == 0 {
				n = 2 + r.Intn(3)
			}
			e.shas = map[string]bool{}
			var shas []string
			for ; n > 0; n-- {
				shas = append(shas, sha(r))
				e.shas[shas[len(shas)-1]] = true
			}
			good := commitsJSON(r, shas)
			f := faults[r.Intn(len(faults))]
			if r.Intn(4) == 0 {
				f = "json"
				good = []byte(badCommits[r.Intn(len(badCommits))])
				if r.Intn(3) == 0 { // a part of a good answer
					g := commitsJSON(r, shas)
					good = g[:r.Intn(len(g)-1)]
				}
			}
			b := content(r)
			first := answer(r, good, f)
			e.reqs = []string{"commits"}
			e.fault = "1:" + f
			e.ok = f == ""
			second := answer(r, b, "")
			if e.ok {
				g := faults[r.Intn(len(faults))]
				second = answer(r, b, g)
				e.reqs = append(e.reqs, "raw")
				e.fault = "2:" + g
				e.ok = g == ""
			}
			e.body = b
			s.Script = []rAnswer{first, second, answer(r, []byte("third"), "")}
		}
		if r.Intn(12) == 0 && len(e.reqs) > 0 {
			s.Script[r.Intn(len(e.reqs))].CloseErr = true
			e.loose = true
		}
		ss = append(ss, s)
		ex = append(ex, e)
	}
	res := runDriver(c, bin, sub, ss)
	for i, s := range ss {
		e := ex[i]
		x, ok := res[i]
		js, _ := json.MarshalIndent(map[string]any{"scenario": s, "result": x}, "", " ")
		bad := func(id, format string, a ...any) {
			c.Finding(id+"/"+s.Path+"/"+e.fault, fmt.Sprintf("Load(%q) over %s: ", s.Path, describe(s.Script))+fmt.Sprintf(format, a...), map[string]string{"scenario.json": string(js)})
		}
		if !ok {
			if c.Violations() == 0 {
				core.Fail("no result of scenario %d", i)
			}
			continue
		}
		if x.Panic != "" {
			bad("panic", "panics: %s", x.Panic)
			continue
		}
		for j, q := range x.Requests {
			if q.HasBody && q.Closed == 0 {
				bad("unclosed", "the body of request %d is not closed", j)
			}
			if q.ReadAfterClose {
				bad("closed-read", "the body of request %d is read after it was closed", j)
			}
			if q.HasBody {
				c.Count("bodies_closed", q.Closed)
			}
			if q.Method != "GET" {
				bad("method", "request %d is a %s", j, q.Method)
			}
		}
		if e.loose && x.Err != "" {
			c.Count("close_errors", 1)
			continue
		}
		if len(x.Requests) != len(e.reqs) {
			var us []string
			for _, q := range x.Requests {
				us = append(us, q.URL)
			}
			bad("requests", "%d requests, want %d: %s", len(x.Requests), len(e.reqs), strings.Join(us, ", "))
			continue
		}
		okURLs := true
		for j, q := range x.Requests {
			if why := requestFor(q.URL, e.reqs[j], e.name, e.shas); why != "" {
				bad("url", "request %d is for %s: %s", j, q.URL, why)
				okURLs = false
			}
		}
		if !okURLs {
			continue
		}
		if e.ok != (x.Err == "") {
			if e.ok {
				bad("refused", "fails: %s", x.Err)
			} else {
				bad("accepted", "gives a template of %d bytes from %s although there was a fault (%s)", len(x.Body), x.URL, e.fault)
			}
			continue
		}
		if e.ok {
			if !bytes.Equal(x.Body, e.body) {
				bad("bytes", "gives other bytes than those served (%d, want %d): %s", len(x.Body), len(e.body), firstDiff(string(e.body), string(x.Body)))
			}
			switch {
			case e.path:
				if filepath.Clean(x.URL) != e.url {
					a, _ := filepath.EvalSymlinks(e.url)
					if b, _ := filepath.EvalSymlinks(x.URL); a != b {
						bad("source", "says the template is from %s, want %s", x.URL, e.url)
					}
				}
			case e.url != "" && x.URL != e.url:
				bad("source", "says the template is from %s, want %s", x.URL, e.url)
			case e.url == "" && x.URL != x.Requests[1].URL:
				u, err := url.Parse(x.URL)
				if err != nil || u.String() != x.Requests[1].URL {
					bad("source", "says the template is from %s, it is from %s", x.URL, x.Requests[1].URL)
				}
			}
			c.Count("scripted_successes", 1)
		} else {
			c.Count("scripted_faults", 1)
		}
		c.Count("scripted_loads", 1)
		c.Count("scripted_requests", len(x.Requests))
		c.Eval(fmt.Sprintf("%s %s %v %q", s.Path, e.fault, describe(s.Script), e.body))
	}
	c.Sample(map[string]any{"reference": ss[0].Path, "history": describe(ss[0].Script)})
	// close errors are rare, count them as loads
	c.Count("scripted_loads", c.Counter("close_errors"))
}

func describe(as []rAnswer) string {
	var out []string
	for _, a := range as {
		d := fmt.Sprintf("%d %q", a.Status, core.Clip(string(a.Body), 60))
		if a.Transport != "" {
			d = "transport error"
		}
		if a.ReadErr >= 0 {
			d += fmt.Sprintf(" cut after %d", a.ReadErr)
		}
		if a.CloseErr {
			d += " close error"
		}
		out = append(out, d)
	}
	return strings.Join(out, "; ")
}

// requestFor tells what is wrong about the URL of a request.
func requestFor(raw, want, name string, shas map[string]bool) string {
	u, err := url.Parse(raw)
	if err != nil {
		return err.Error()
	}
	switch want {
	case "commits":
		if u.Scheme != "https" || u.Host != "api.github.com" || u.Path != "/repos/hexdigest/gowrap/commits" {
			return "not the commits of the repository"
		}
		q, err := url.ParseQuery(u.RawQuery)
		if err != nil {
			return err.Error()
		}
		if q.Get("path") != "templates/"+name {
			return fmt.Sprintf("asks for the commits of %q, not of templates/%s", q.Get("path"), name)
		}
		if q.Has("sha") || q.Has("ref") || u.Fragment != "" {
			return "has parameters of the name"
		}
		return ""
	case "raw":
		rest, ok := strings.CutPrefix(u.Path, "/hexdigest/gowrap/")
		s, p, _ := strings.Cut(rest, "/")
		if u.Scheme != "https" || u.Host != "raw.githubusercontent.com" || !ok || u.RawQuery != "" || u.Fragment != "" {
			return "not a file of the repository"
		}
		if !shas[s] {
			return "commit " + s + " is not one that has the template"
		}
		if p != "templates/"+name {
			return fmt.Sprintf("is for %s, not for templates/%s", p, name)
		}
		return ""
	}
	if w, err := url.Parse(want); err != nil || w.String() != u.String() {
		return "want " + want
	}
	return ""
}

// wireFaults are what may go wrong with a request on the wire.
var wireFaults = []string{"", "", "", "gzip", "chunked", "redirect", "status", "reset", "reset-body", "short-length", "short-chunk", "bad-gzip", "garbage", "empty-reply", "redirect-404", "redirect-loop", "redirect-nowhere"}

// redirectHost is where redirects lead.
const redirectHost = "redirect.example.org"

// serveFault serves a body the way a fault asks for; good ones are those that
// end with the body.
func serveFault(w http.ResponseWriter, r *http.Request, fault string, status int, b []byte) {
	switch fault {
	case "":
		w.Header().Set("Content-Type", "text/plain; charset=utf-8")
		_, _ = w.Write(b)
	case "gzip":
		if !strings.Contains(r.Header.Get("Accept-Encoding"), "gzip") {
			_, _ = w.Write(b)
			return
		}
		w.Header().Set("Content-Encoding", "gzip")
		z := gzip.NewWriter(w)
		_, _ = z.Write(b)
		_ = z.Close()
	case "chunked":
		for i := 0; i < len(b); i += len(b)/5 + 1 {
			_, _ = w.Write(b[i:min(len(b), i+len(b)/5+1)])
			w.(http.Flusher).Flush()
		}
	case "redirect":
		if r.Host == redirectHost {
			_, _ = w.Write(b)
			return
		}
		http.Redirect(w, r, "https://"+redirectHost+"/x", []int{301, 302, 303, 307, 308}[len(b)%5])
	case "redirect-404":
		if r.Host == redirectHost {
			w.WriteHeader(404)
			_, _ = w.Write(b)
			return
		}
		http.Redirect(w, r, "https://"+redirectHost+"/x", 302)
	case "redirect-loop":
		http.Redirect(w, r, "https://"+redirectHost+"/x", 302)
	case "redirect-nowhere":
		w.WriteHeader(302)
		_, _ = w.Write(b)
	case "status":
		w.WriteHeader(status)
		if status != 204 && status != 304 {
			_, _ = w.Write(b)
		}
	case "reset":
		cut(w, "")
	case "reset-body":
		cut(w, fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(b)+1, b[:len(b)/2]))
	case "short-length":
		cut(w, fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Length: %d\r\n\r\n%s", len(b)+100, b))
	case "short-chunk":
		cut(w, fmt.Sprintf("HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n%x\r\n%s", len(b)+5, b))
	case "bad-gzip":
		var z bytes.Buffer
		g := gzip.NewWriter(&z)
		_, _ = g.Write(b)
		_ = g.Close()
		x := z.Bytes()
		cut(w, fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Encoding: gzip\r\nContent-Length: %d\r\n\r\n%s", len(x)-6, x[:len(x)-6]))
	case "garbage":
		cut(w, "\x00\x01\x02 not HTTP\r\n\r\n"+string(b))
	case "empty-reply":
		cut(w, "HTTP/1.1 200 OK\r\n")
	default:
		panic(fault)
	}
}

func goodFault(f string) bool { return f == "" || f == "gzip" || f == "chunked" || f == "redirect" }

var errStatuses = []int{201, 202, 203, 204, 206, 300, 304, 400, 401, 403, 404, 410, 429, 451, 500, 502, 503, 504}

// wireCase is a run of the command against the proxy.
type wireCase struct {
	ref            string // template reference
	f1, f2         string
	st             int
	commits        []byte
	shas           []string
	tmpl           []byte
	ok             bool
	nreq           int // requests that may be made, redirects aside
	refuse, badTLS bool
}

// wire makes a case for a template.
func wire(r *rand.Rand, tmpl []byte) *wireCase {
	k := &wireCase{ref: templateNames[r.Intn(len(templateNames))], tmpl: tmpl, st: errStatuses[r.Intn(len(errStatuses))], shas: []string{sha(r)}, ok: true, nreq: 2}
	k.commits = commitsJSON(r, k.shas)
	k.f1, k.f2 = wireFaults[r.Intn(6)], wireFaults[r.Intn(6)]
	if r.Intn(2) == 0 {
		k.f2 = wireFaults[r.Intn(len(wireFaults))]
	} else if r.Intn(2) == 0 {
		k.f1 = wireFaults[r.Intn(len(wireFaults))]
	}
	if r.Intn(3) == 0 {
		k.ref = []string{"https://", "http://"}[r.Intn(2)] + []string{"templates.example.org/x.tmpl", "example.com:8443/a%20b?q=1", "example.com/deep/er/t"}[r.Intn(3)]
		k.f1 = ""
		k.nreq = 1
	} else if r.Intn(8) == 0 {
		k.commits = []byte(badCommits[r.Intn(len(badCommits))])
		k.ok = false
		k.nreq = 1
	}
	if !goodFault(k.f1) {
		k.ok, k.nreq = false, 1
	}
	if k.ok && !goodFault(k.f2) {
		k.ok = false
	}
	if strings.HasPrefix(k.ref, "https") || !strings.Contains(k.ref, "://") {
		switch r.Intn(16) {
		case 0:
			k.refuse, k.ok, k.nreq = true, false, 0
		case 1:
			k.badTLS, k.ok, k.nreq = true, false, 0
		}
	}
	return k
}

func (k *wireCase) serve(ca *authority) *proxy {
	last := ""
	p := newProxy(ca, func(n int, w http.ResponseWriter, r *http.Request) {
		if r.Host != redirectHost { // the command makes one request at a time
			last = r.Host
		}
		if last == "api.github.com" {
			serveFault(w, r, k.f1, k.st, k.commits)
			return
		}
		serveFault(w, r, k.f2, k.st, k.tmpl)
	})
	p.refuse = k.refuse
	if k.badTLS {
		p.certOf = "other.example.net"
	}
	return p
}

// judge tells what is wrong about the requests that were made.
func (k *wireCase) judge(seen []string) string {
	n := 0
	sh := map[string]bool{}
	for _, s := range k.shas {
		sh[s] = true
	}
	for _, s := range seen {
		m, raw, _ := strings.Cut(s, " ")
		if m != "GET" {
			return "the request " + s
		}
		if u, err := url.Parse(raw); err == nil && u.Host == redirectHost {
			continue
		}
		want := k.ref
		if !strings.Contains(k.ref, "://") {
			want = []string{"commits", "raw", "none"}[min(n, 2)]
		}
		if n >= k.nreq {
			return "the request " + s + " is one too many"
		}
		if why := requestFor(raw, want, k.ref, sh); why != "" {
			return "the request " + s + ": " + why
		}
		n++
	}
	if n != k.nreq {
		return fmt.Sprintf("%d requests, want %d: %v", n, k.nreq, seen)
	}
	return ""
}

func (k *wireCase) String() string {
	return fmt.Sprintf("%s with faults %q, %q (status %d), commits %s, refused connection %v, wrong certificate %v", k.ref, k.f1, k.f2, k.st, core.Clip(string(k.commits), 80), k.refuse, k.badTLS)
}

// remoteCommand runs gowrap gen against the proxy.
func remoteCommand(c *core.Ctx) {
	root := c.Dir("e2e")
	ca := newAuthority(c.Dir("ca"))
	core.Write(root, map[string]string{"go.mod": "module m\n\ngo 1.24\n", "src/a.go": "package src\n\ntype I interface{ F(int) error }\n"})
	gw := c.Gowrap()
	n := c.Pick(300, 1500)
	core.Parallel(n, func(i int) {
		r := rand.New(rand.NewSource(c.Seed*31337 + int64(i)))
		tag := fmt.Sprintf("v%d", r.Int63())
		pad := ""
		if i%30 == 7 { // big templates
			n := 1<<20 + r.Intn(1<<19)
			if i%60 == 37 {
				n = 12 << 20
			}
			pad = "{{/* " + strings.Repeat("x", n) + " */}}"
		}
		k := wire(r, []byte("const zz = \""+tag+"\"\n\n// {{.Interface.Name}}\n"+pad))
		dir := filepath.Join(root, fmt.Sprintf("w%d", i))
		core.Must(os.MkdirAll(dir, 0o755), "dir")
		stale := r.Intn(2) == 0
		files := map[string]string{}
		if stale {
			files["out.go"] = "package w\n\nconst zz = \"stale\"\n"
		}
		local, localText := false, "local"+tag
		localErr := ""
		if !strings.Contains(k.ref, "://") && r.Intn(4) == 0 {
			name := strings.TrimPrefix(k.ref, "/")
			if name == k.ref {
				switch r.Intn(4) {
				case 3: // a local template that renders nothing
					files[name] = []string{"", "\n", "{{/* */}}", " \t"}[r.Intn(4)]
					local, localText = true, ""
				case 0: // something of that name that can not be read
					core.Must(os.MkdirAll(filepath.Join(dir, name), 0o755), "dir")
					localErr = "directory"
				default:
					files[name] = "const zz = \"local" + tag + "\"\n"
					local = true
				}
			}
		}
		core.Write(dir, files)
		p := k.serve(ca)
		defer p.close()
		before := snapshot(dir)
		res := core.Run(core.Cmd{Dir: dir, Env: p.env(), Args: []string{gw, "gen", "-p", "m/src", "-i", "I", "-t", k.ref, "-o", "out.go"}})
		b, _ := os.ReadFile(filepath.Join(dir, "out.go"))
		seen := p.requests()
		rep := map[string]string{"case.txt": k.String() + fmt.Sprintf("\nlocal %v %s\nrequests %q\nexit %d\n%s", local, localErr, seen, res.Code, res.Err), "out.go.txt": string(b)}
		id := fmt.Sprintf("%s/%s-%s", k.ref, k.f1, k.f2)
		bad := func(kind, format string, a ...any) {
			c.Finding("gen-"+kind+"/"+id, "gowrap gen -t "+k.String()+": "+fmt.Sprintf(format, a...), rep)
		}
		if crashed(res.Err) {
			bad("panic", "panics: %s", core.Clip(res.Err, 800))
			return
		}
		got := consts(string(b))["zz"]
		header := ""
		for _, l := range strings.Split(string(b), "\n") {
			if h, ok := strings.CutPrefix(l, "// template: "); ok {
				header = h
			}
		}
		switch {
		case local:
			if res.Code != 0 || got != localText || len(seen) > 0 {
				bad("local", "there is a local file of that name, but exit status %d, template %q, requests %v\n%s", res.Code, got, seen, core.Clip(res.Err, 500))
			}
			c.Count("local_files", 1)
		case localErr != "":
			if res.Code != 1 || len(seen) > 0 {
				bad("local-error", "there is an unreadable local file of that name, but exit status %d, requests %v", res.Code, seen)
			}
			if ch := changes(before, snapshot(dir)); len(ch) > 0 {
				bad("changes", "fails, but %v", ch)
			}
			c.Count("local_errors", 1)
		default:
			if why := k.judge(seen); why != "" {
				bad("requests", "%s", why)
			}
			if k.ok {
				if res.Code != 0 {
					bad("refused", "exit status %d: %s", res.Code, core.Clip(res.Err, 800))
				} else if got != tag {
					bad("template", "the template that was used is %q, want %q", got, tag)
				} else if !strings.Contains(header, "://") {
					bad("header", "the header names the template %q", header)
				}
				c.Count("commands_succeeded", 1)
			} else {
				if res.Code != 1 {
					bad("accepted", "exit status %d", res.Code)
				}
				if ch := changes(before, snapshot(dir)); len(ch) > 0 {
					bad("changes", "fails, but %v", ch)
				}
				c.Count("commands_failed_on_faults", 1)
			}
			c.Count("wire_fault_"+k.f1, 1)
			c.Count("wire_fault_"+k.f2, 1)
		}
		c.Count("requests_on_the_wire", len(seen))
		c.Eval(k.String() + fmt.Sprint(local, localErr, stale))
		c.Sample(map[string]any{"reference": k.ref, "faults": k.f1 + "," + k.f2, "local": local, "exit": res.Code, "requests": len(seen)})
	})
}
