#!/usr/bin/env python3
"""The planted bugs of /verif/seeded: python3 tools/seeds.py [id prefix...] writes and confirms them."""
from seedlib import *

G = 'generator/generator.go'
TY = 'generator/types.go'
CG = 'cmd_generate.go'

# ---------------------------------------------------------------- model
seed('c02-types-per-file', 'C02', [(G,
"				if ts, ok := spec.(*ast.TypeSpec); ok {\n					result = append(result, ts)\n				}",
"				ts, ok := spec.(*ast.TypeSpec)\n				if ok && (ts.Assign == token.NoPos || !gd.Lparen.IsValid()) {\n					result = append(result, ts)\n				}")],
"a type alias declared inside a parenthesised type declaration, used in a method of an interface decorated in another package",
"the alias is printed without the package qualifier, so the decorator doesn't compile",
heredoc('src/a.go', '''
package src

type (
	ID = int64
	Store interface {
		Get(id ID) (ID, error)
	}
)
''') + heredoc('t', '''
type Dec struct{ base {{.Interface.Type}} }

{{range $m := .Interface.Methods}}func (d Dec) {{$m.Declaration}} { {{$m.Pass "d.base."}} }
{{end}}
''') + '''"$S/gowrap" gen -p ./src -i Store -t t -o dst/out.go || fail "gen"
go build ./... || fail "decorator doesn't compile"
echo fine
''')

seed('c02-chan-parens', 'C02', [('printer/printer.go',
"	return chanTypes[c.Dir] + valueType, nil",
"	if strings.HasPrefix(valueType, \"<-\") || strings.HasPrefix(valueType, \"chan<-\") {\n		return chanTypes[c.Dir] + \"(\" + valueType + \")\", nil\n	}\n\n	return strings.TrimSuffix(chanTypes[c.Dir], \" \") + \" \" + strings.TrimPrefix(strings.TrimPrefix(valueType, \"(\"), \"*(\"), nil")],
"a channel of parenthesised or pointer-to-parenthesised elements",
"the printed type isn't the type of the parameter",
heredoc('src/a.go', '''
package src

type Store interface {
	Watch(a chan (<-chan int), b chan *(func(int) string)) chan (func())
}
''') + heredoc('t', '''
type Dec struct{ base {{.Interface.Type}} }

{{range $m := .Interface.Methods}}func (d Dec) {{$m.Declaration}} { {{$m.Pass "d.base."}} }
{{end}}

var _ {{.Interface.Type}} = Dec{}
''') + '''"$S/gowrap" gen -p ./src -i Store -t t -o dst/out.go || fail "gen"
go build ./... || fail "decorator doesn't compile"
echo fine
''')

seed('c03-error-position', 'C03', [(TY,
'		m.Results[len(m.Results)-1].Name = "err"\n',
'		m.Results[len(f.Results.List)-1].Name = "err"\n')],
"a method whose last results share one type declaration, i.e. (n int, err, closeErr error)",
"the error isn't called err",
heredoc('a.go', '''
package demo

type Svc interface {
	Do() (n int, openErr, closeErr error)
}
''') + heredoc('t', '''
{{range $n, $m := .Interface.Methods}}// {{$n}} returns error: {{$m.ReturnsError}} named {{$m.ResultsNames}}
{{end}}
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
grep -q "Do returns error: true named n, openErr, err$" out.go || fail "$(grep Do out.go)"
echo fine
''')

seed('c03-doc-blank-lines', 'C03', [(TY,
"		m.Doc = make([]string, 0, len(fi.Doc.List))\n		for _, comment := range fi.Doc.List {\n			m.Doc",
"		m.Doc = make([]string, 0, len(fi.Doc.List))\n		for i, comment := range fi.Doc.List {\n			if i > 0 && comment.Text == fi.Doc.List[i-1].Text {\n				continue\n			}\n			m.Doc")],
"a doc comment with two equal lines in a row",
"one of the equal lines of the documentation is lost",
heredoc('a.go', '''
package demo

type Svc interface {
	// Do does
	//  0 0
	//  0 0
	Do() error
}
''') + heredoc('t', '''
{{range $n, $m := .Interface.Methods}}// {{$n}} has {{len $m.Doc}} lines
{{end}}
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
grep -q "Do has 3 lines" out.go || fail "$(grep Do out.go)"
echo fine
''')

seed('c04-variadic-func', 'C04', [(TY,
"			ss = append(ss, p.Name+\" \"+strings.Replace(p.Type, \"...\", \"[]\", 1))",
"			ss = append(ss, p.Name+\" \"+strings.ReplaceAll(p.Type, \"...\", \"[]\"))")],
"ParamsStruct of a method with a variadic parameter of functions that are variadic themselves",
"the struct has a field of a different type",
heredoc('a.go', '''
package main

type Svc interface {
	Do(fs ...func(args ...string))
}

func main() {}
''') + heredoc('t', '''
type Dec struct{ base {{.Interface.Type}} }

{{range $m := .Interface.Methods}}func (d Dec) {{$m.Declaration}} {
	p := {{$m.ParamsStruct}}{ {{$m.ParamsNames}} }
	d.base.{{$m.Name}}(p.{{(index $m.Params 0).Pass}})
}
{{end}}
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
go build -o /dev/null . || fail "decorator doesn't compile"
echo fine
''')

seed('c05-embedded-empty', 'C05', [(G,
"	if len(output.methods) == 0 {",
"	if output.methods == nil {")],
"an interface without methods",
"an empty decorator is written instead of the refusal",
heredoc('a.go', '''
package demo

type Empty interface{}
''') + heredoc('t', '''
{{range $n, $m := .Interface.Methods}}// {{$n}}
{{end}}
''') + '''"$S/gowrap" gen -p . -i Empty -t t -o out.go && fail "an interface without methods is accepted"
[ -e out.go ] && fail "out.go is written"
echo fine
''')

seed('c05-mkdir-early', 'C05', [(CG,
"	gen, err := generator.NewGenerator(*generatorOptions)\n	if err != nil {",
"	if err := os.MkdirAll(filepath.Dir(gc.outputFile), os.ModePerm); err != nil {\n		return err\n	}\n\n	gen, err := generator.NewGenerator(*generatorOptions)\n	if err != nil {"), (CG,
"	if err := gen.Generate(buf); err != nil {\n		return err\n	}\n\n	if err := os.MkdirAll(filepath.Dir(gc.outputFile), os.ModePerm); err != nil {\n		return err\n	}\n",
"	if err := gen.Generate(buf); err != nil {\n		return err\n	}\n")],
"a refused request with an output directory that doesn't exist",
"the directory of the output is left behind by a refused request",
heredoc('a.go', '''
package demo

type Svc interface{ Do() }
''') + heredoc('t', '''
{{range $n, $m := .Interface.Methods}}// {{$n}}
{{end}}
''') + '''"$S/gowrap" gen -p . -i Missing -t t -o new/dir/out.go && fail "a missing interface is accepted"
[ -e new ] && fail "the directory is left behind"
echo fine
''')

seed('c06-output-subdir', 'C06', [(CG,
"			\"OutputFileName\":    filepath.Base(gc.outputFile),",
"			\"OutputFileName\":    filepath.Clean(gc.outputFile),")],
"an output in another directory than the one the command runs in, regenerated with go generate",
"go generate writes another file than the one that has the directive",
heredoc('a.go', '''
package demo

type Svc interface{ Do() }
''') + heredoc('t', '''
{{range $n, $m := .Interface.Methods}}// {{$n}}
{{end}}
''') + '''"$S/gowrap" gen -p demo -i Svc -t t -o ./dec/out.go || fail "gen"
(cd dec && PATH="$S:$PATH" go generate ./...) || fail "go generate"
[ "$(find . -name out.go | wc -l)" = 1 ] || fail "$(find . -name out.go)"
echo fine
''')

seed('c07-template-imports', 'C07', [(G,
"		allImports[strings.TrimSpace(i)] = struct{}{}\n",
"		if _, ok := allImports[strings.TrimSpace(i)]; !ok {\n			allImports[i] = struct{}{}\n		}\n")],
"Import called with an import that the source file has too and that has surrounding whitespace there",
"an import is printed twice or not at all",
heredoc('a.go', '''
package demo

type Svc interface{ Do() }
''') + 'echo not used yet\n')
SEEDS.pop()

seed('c02-alias-case', 'C02', [(G,
"		if i.Name != nil && i.Name.Name == name {",
"		if i.Name != nil && strings.EqualFold(i.Name.Name, name) {")],
"two imports of the source file whose names differ only in case",
"an embedded interface is taken from the wrong package",
heredoc('x/a.go', '''
package x

type I interface{ FromX() }
''') + heredoc('y/a.go', '''
package y

type I interface{ FromY() }
''') + heredoc('a.go', '''
package demo

import (
	P "demo/x"
	p "demo/y"
)

type Svc interface {
	p.I
}

var _ P.I
''') + heredoc('t', '''
{{range $n, $m := .Interface.Methods}}// {{$n}};
{{end}}
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
grep -q "^// FromY;" out.go || fail "$(cat out.go)"
echo fine
''')

seed('c08-snake-digits', 'C08', [(CG,
'regexp.MustCompile("([a-z0-9])([A-Z])")', 'regexp.MustCompile("([a-z])([A-Z])")')],
"a name with a digit followed by two capital letters",
"snake \"Get2FA\" loses the word boundary",
heredoc('a.go', '''
package demo

type Svc interface{ Enable2FA() }
''') + heredoc('t', '''
{{range $n, $m := .Interface.Methods}}// {{snake $n}};
{{end}}
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
grep -q "^// enable2_fa;" out.go || fail "$(grep -i enable out.go)"
echo fine
''')

seed('c08-title-digraphs', 'C08', [(CG,
'	helperFuncs["up"] = strings.ToUpper', '	helperFuncs["up"] = strings.ToTitle')],
"letters whose upper case differs from the title case",
"up returns the title case",
heredoc('a.go', '''
package demo

type Svc interface{ Do() }
''') + heredoc('t', '''
{{range $n, $m := .Interface.Methods}}// {{up "ǆ"}};
{{end}}
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
grep -q "^// Ǆ;" out.go || fail "$(cat out.go)"
echo fine
''')

# ---------------------------------------------------------------- loader, template command, command line
SRV = heredoc('srv/main.go', '''
package main

import (
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
)

const body = "{{range $n, $m := .Interface.Methods}}// {{$n}}\\n{{end}}"

// runs the command that is given with ADDR replaced by the address of a server
func main() {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic(err)
	}
	http.HandleFunc("/accepted", func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(http.StatusAccepted)
		fmt.Fprint(w, body)
	})
	http.HandleFunc("/short", func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("Content-Length", fmt.Sprint(len(body)*2))
		fmt.Fprint(w, body)
	})
	http.HandleFunc("/ok", func(w http.ResponseWriter, r *http.Request) { fmt.Fprint(w, body) })
	go http.Serve(l, nil)
	c := exec.Command(os.Args[1], "gen", "-p", ".", "-i", "Svc", "-t", "http://"+l.Addr().String()+os.Args[2], "-o", "out.go")
	c.Stdout, c.Stderr = os.Stdout, os.Stderr
	if err := c.Run(); err != nil {
		os.Exit(1)
	}
}
''') + heredoc('a.go', '''
package demo

type Svc interface{ Do() }
''') + '''go build -o "$S/srv" ./srv || exit 3
unset http_proxy HTTP_PROXY
"$S/srv" "$S/gowrap" /ok || fail "a good template isn't loaded"
rm out.go
'''
seed('c09-status-2xx', 'C09', [('loader/loader.go',
"	if resp.StatusCode != http.StatusOK {", "	if resp.StatusCode >= http.StatusBadRequest {")],
"a template server that answers with a status other than 200 and below 400",
"the body of an answer that isn't the template is used as a template",
SRV + '''"$S/srv" "$S/gowrap" /accepted && fail "the reply with status 202 is used as a template"
[ -e out.go ] && fail "out.go is written"
echo fine
''')

seed('c09-short-body', 'C09', [('loader/loader.go',
"	return io.ReadAll(resp.Body)\n",
"	b, err = io.ReadAll(resp.Body)\n	if len(b) > 0 && err == io.ErrUnexpectedEOF {\n		return b, nil\n	}\n\n	return b, err\n")],
"a connection that breaks in the middle of the reply",
"a part of the template is used as the template",
SRV + '''"$S/srv" "$S/gowrap" /short && fail "a part of the template is used"
[ -e out.go ] && fail "out.go is written"
echo fine
''')

LOADER = lambda main: heredoc('main.go', main) + '''cp -a "$repo" "$S/repo" && mkdir "$S/repo/zzdemo" && cp main.go "$S/repo/zzdemo/" && cd "$S/repo" || exit 3
go build -o "$S/demo" ./zzdemo || exit 3
"$S/demo" || fail "see above"
echo fine
'''
seed('c09-close-error', 'C09', [('loader/loader.go',
"		if closeErr := resp.Body.Close(); closeErr != nil {\n			err = closeErr\n		}",
"		if closeErr := resp.Body.Close(); err == nil {\n			b, err = b[:len(b):len(b)], closeErr\n		}"), ('loader/loader.go',
"	if resp.StatusCode != http.StatusOK {\n		return nil,",
"	if resp.StatusCode/100 != http.StatusOK/100 {\n		return nil,")],
"a template server that answers with another successful status than 200, i.e. 203 of a transforming proxy",
"the reply of a proxy is used as a template",
SRV + '''"$S/srv" "$S/gowrap" /accepted && fail "the reply with status 202 is used as a template"
echo fine
''')

seed('c10-nested-prefix', 'C10', [('loader/loader.go',
'strings.Replace(leaf.Path, templatesPathPrefix, "", 1)', 'strings.ReplaceAll(leaf.Path, templatesPathPrefix, "")')],
"a template in a directory named like templates inside of templates",
"list prints a name that can't be loaded",
LOADER('''
package main

import (
	"fmt"
	"io"
	"net/http"
	"os"
	"strings"

	"github.com/hexdigest/gowrap/loader"
)

type client struct{}

func (client) Do(*http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 200, Body: io.NopCloser(strings.NewReader(`{"tree":[{"path":"templates/a"},{"path":"templates/my/templates/b"}]}`))}, nil
}

func main() {
	l, err := loader.New(client{}).List()
	if err != nil || fmt.Sprint(l) != "[a my/templates/b]" {
		fmt.Println(l, err)
		os.Exit(1)
	}
}
'''))

seed('c10-copy-existing', 'C10', [('cmd_template.go',
"	if err := wf(dstFileName, body, 0777); err != nil {\n		return err\n	}\n",
"	if f, err := os.OpenFile(dstFileName, os.O_WRONLY, 0); err == nil {\n		//keep the permissions of the existing file\n		defer f.Close()\n		if _, err := f.WriteAt(body, 0); err != nil {\n			return err\n		}\n	} else if err := wf(dstFileName, body, 0777); err != nil {\n		return err\n	}\n")],
"copying to a file that exists and is longer than the template",
"the copy ends with the rest of the old file",
LOADER('''
package main

import (
	"fmt"
	"io"
	"os"

	"github.com/hexdigest/gowrap"
)

type loader struct{}

func (loader) List() ([]string, error) { return nil, nil }
func (loader) Load(string) ([]byte, string, error) { return []byte("template"), "url", nil }

func main() {
	f, err := os.CreateTemp("", "demo")
	if err != nil {
		panic(err)
	}
	defer os.Remove(f.Name())
	f.WriteString("something that is longer than the template")
	f.Close()
	if err := gowrap.NewTemplateCommand(loader{}).Run([]string{"copy", "x", f.Name()}, io.Discard); err != nil {
		panic(err)
	}
	b, _ := os.ReadFile(f.Name())
	if string(b) != "template" {
		fmt.Printf("%q\\n", b)
		os.Exit(1)
	}
}
'''))

seed('c11-exit-usage', 'C11', [('cmd/gowrap/gowrap.go',
"		if _, ok := err.(gowrap.CommandLineError); ok {",
"		if _, ok := err.(gowrap.CommandLineError); ok && len(args) > 1 {")],
"a subcommand without any arguments",
"the exit status is 1 instead of 2",
'''"$S/gowrap" template; [ $? = 2 ] || fail "gowrap template"
"$S/gowrap" gen; [ $? = 2 ] || fail "gowrap gen"
echo fine
''')

seed('c11-help-command', 'C11', [('cmd/gowrap/gowrap.go',
"		return fmt.Errorf(\"gowrap: unknown command %q\\nRun 'gowrap help' for usage\", args[0])",
"		return gowrap.Usage(w)")],
"help of an unknown command",
"a mistyped command is answered with status 0",
'''"$S/gowrap" help gne >/dev/null; [ $? = 2 ] || fail "gowrap help gne"
echo fine
''')

# ---------------------------------------------------------------- library
seed('c01-local-names', 'C01', [('templates/prometheus', "      _since := time.Now()\n", "      since := time.Now()\n"),
 ('templates/prometheus', "time.Since(_since)", "time.Since(since)")],
"a method with a parameter named since",
"the decorator doesn't compile",
heredoc('a.go', '''
package demo

import "time"

type Svc interface {
	List(since time.Time) error
}
''') + '''"$S/gowrap" gen -p . -i Svc -t "$T/prometheus" -o dec.go || fail "gen"
go build ./... || fail "decorator doesn't compile"
echo fine
''', third=True)

DEC = lambda tmpl, iface, main, extra='': heredoc('a.go', 'package main\n\n' + iface) + heredoc('main.go', main) + \
 '''"$S/gowrap" gen -p . -i Svc -t "$T/%s" -o dec.go %s || fail "gen"
timeout 100 go run . || fail "see above"
echo fine
''' % (tmpl, extra)

seed('c01-local-names', 'C01', [('templates/prometheus', "      _since := time.Now()\n", "      since := time.Now()\n"),
 ('templates/prometheus', "time.Since(_since)", "time.Since(since)")],
"a method with a parameter named since",
"the decorator doesn't compile",
heredoc('a.go', '''
package demo

import "time"

type Svc interface {
	List(since time.Time) error
}
''') + '''"$S/gowrap" gen -p . -i Svc -t "$T/prometheus" -o dec.go || fail "gen"
go build ./... || fail "decorator doesn't compile"
echo fine
''', third=True)

seed('c13-zero-retries', 'C13', [('templates/retry',
"      if err == nil || _d._retryCount < 1 {", "      if err == nil || _d._retryCount < 0 {")],
"a retry decorator with zero retries and zero interval around an implementation that fails",
"the call panics instead of returning the error",
DEC('retry', '''type Svc interface{ Do() error }''', '''
package main

import (
	"errors"
	"fmt"
)

type impl struct{}

func (impl) Do() error { return errors.New("failed") }

func main() {
	fmt.Println(NewSvcWithRetry(impl{}, 0, 0).Do())
}
'''))

seed('c15-late-success', 'C15', [('templates/circuitbreaker',
"      if err == nil {\n        _d._consecutiveErrors = 0\n        _d._closesAt = nil\n        return",
"      if err == nil {\n        _d._consecutiveErrors = 0\n        return")],
"a call that started before the circuit opened and succeeds while it is open",
"the success doesn't close the circuit",
DEC('circuitbreaker', '''type Svc interface{ Do(n int) error }''', '''
package main

import (
	"errors"
	"time"
)

type impl struct{ started, finish chan struct{} }

func (i impl) Do(n int) error {
	if n == 0 {
		return errors.New("failed")
	}
	if n == 1 {
		close(i.started)
		<-i.finish
	}
	return nil
}

func main() {
	i := impl{make(chan struct{}), make(chan struct{})}
	d := NewSvcWithCircuitBreaker(i, 1, time.Hour)
	done := make(chan error)
	go func() { done <- d.Do(1) }()
	<-i.started
	if d.Do(0) == nil {
		panic("no error")
	}
	if d.Do(2) == nil {
		panic("the circuit is closed")
	}
	close(i.finish)
	if err := <-done; err != nil {
		panic(err)
	}
	if err := d.Do(2); err != nil {
		panic(err)
	}
}
'''))

seed('c15-open-deadline', 'C15', [('templates/circuitbreaker',
"      {{$method.ResultsNames}} = _d.{{$.Interface.Name}}.{{$method.Call}}\n      _d._lock.Lock()",
"      _started := time.Now()\n      {{$method.ResultsNames}} = _d.{{$.Interface.Name}}.{{$method.Call}}\n      _d._lock.Lock()"),
 ('templates/circuitbreaker', "time.Now().Add(_d._openInterval)", "_started.Add(_d._openInterval)")],
"a failing call that takes time comparable to the open interval",
"the circuit is open for a shorter time than the interval",
DEC('circuitbreaker', '''type Svc interface{ Do() error }''', '''
package main

import (
	"errors"
	"time"
)

type impl struct{ calls *int }

func (i impl) Do() error {
	*i.calls++
	time.Sleep(700 * time.Millisecond)
	return errors.New("failed")
}

func main() {
	n := 0
	d := NewSvcWithCircuitBreaker(impl{&n}, 1, 600*time.Millisecond)
	start := time.Now()
	d.Do()
	d.Do()
	if n != 1 && time.Since(start) < 1500*time.Millisecond {
		panic("the circuit isn't open")
	}
}
'''))

seed('c16-rounded-rate', 'C16', [('templates/ratelimit',
"time.Duration(float64(time.Second) / rps)", "time.Second / time.Duration(math.Ceil(rps))"),
 ('templates/ratelimit', 'import (\n  "time"\n)', 'import (\n  "math"\n  "time"\n)')],
"a rate that isn't a whole number",
"a rate of 2.5 calls per second lets three calls through in a second",
DEC('ratelimit', '''type Svc interface{ Do() }''', '''
package main

import "time"

type impl struct{}

func (impl) Do() {}

func main() {
	d := NewSvcWithRateLimit(impl{}, 0, 0.5)
	start := time.Now()
	d.Do()
	d.Do()
	if t := time.Since(start); t < 3900*time.Millisecond {
		panic(t)
	}
}
'''))

seed('c18-panic', 'C18', [('templates/syncpool',
"      defer func() {\n        _d._pool <- _impl\n      }()\n      {{ $method.Pass \"_impl.\" }}",
"      {{if $method.HasResults}}{{$method.ResultsNames}} = {{end}}_impl.{{$method.Call}}\n      _d._pool <- _impl\n      return")],
"an implementation that panics while the caller recovers",
"the implementation never gets back to the pool and the next call blocks",
DEC('syncpool', '''type Svc interface{ Do(fail bool) int }''', '''
package main

import "time"

type impl struct{}

func (impl) Do(fail bool) int {
	if fail {
		panic("failed")
	}
	return 1
}

func main() {
	d := NewSvcPool(impl{})
	func() {
		defer func() { recover() }()
		d.Do(true)
	}()
	time.AfterFunc(5*time.Second, func() { panic("the pool lost its implementation") })
	d.Do(false)
}
'''))

seed('c18-early-return', 'C18', [('templates/syncpool',
"      defer func() {\n        _d._pool <- _impl\n      }()\n",
"      {{if $method.HasResults}}defer func() {\n        _d._pool <- _impl\n      }(){{else}}_d._pool <- _impl{{end}}\n")],
"concurrent calls of a method without results",
"two calls use one implementation at a time",
DEC('syncpool', '''type Svc interface{ Do(f func()) }''', '''
package main

import "time"

type impl struct{ busy bool }

func (i *impl) Do(f func()) {
	if i.busy {
		panic("the implementation is in use")
	}
	i.busy = true
	f()
	i.busy = false
}

func main() {
	d := NewSvcPool(&impl{})
	in := make(chan struct{})
	go d.Do(func() { close(in); time.Sleep(500 * time.Millisecond) })
	<-in
	d.Do(func() {})
}
'''))

seed('c19-parallel-start', 'C19', [('templates/fallback',
"              case <-_next:\n", "              {{if not $method.AcceptsContext}}case <-_next:{{end}}\n")],
"a fallback over an implementation that fails at once, in a method that accepts a context",
"the next implementation isn't tried until the interval passes",
DEC('fallback', '''import "context"

type Svc interface{ Do(ctx context.Context) error }''', '''
package main

import (
	"context"
	"errors"
	"time"
)

type impl struct{ err error }

func (i impl) Do(context.Context) error { return i.err }

func main() {
	d := NewSvcWithFallback(20*time.Second, impl{errors.New("failed")}, impl{})
	start := time.Now()
	if err := d.Do(context.Background()); err != nil {
		panic(err)
	}
	if t := time.Since(start); t > 10*time.Second {
		panic(t)
	}
}
'''))

seed('c20-short-timeouts', 'C20', [('templates/timeout',
"  return {{$decorator}} {\n    {{.Interface.Name}}: base,\n    _config: config,\n  }\n",
"""  _r := {{$decorator}} {
    {{.Interface.Name}}: base,
    _config: config,
  }
  {{range $method := .Interface.Methods}}
    {{if $method.AcceptsContext}}_r._config.{{$method.Name}}Timeout = _r._config.{{$method.Name}}Timeout.Truncate(time.Millisecond){{end}}
  {{end}}
  return _r
""")],
"a timeout below a millisecond",
"the timeout is ignored",
DEC('timeout', '''import "context"

type Svc interface{ Do(ctx context.Context) error }''', '''
package main

import (
	"context"
	"time"
)

type impl struct{}

func (impl) Do(ctx context.Context) error {
	if _, ok := ctx.Deadline(); !ok {
		panic("no deadline")
	}
	return nil
}

func main() {
	NewSvcWithTimeout(impl{}, SvcWithTimeoutConfig{DoTimeout: 500 * time.Microsecond}).Do(context.Background())
}
'''))

seed('c20-error-only', 'C20', [('templates/timeout',
"  {{if $method.AcceptsContext  }}\n    //", "  {{if and $method.AcceptsContext $method.ReturnsError }}\n    //")],
"a method that accepts a context and returns no error",
"its timeout is ignored",
DEC('timeout', '''import "context"

type Svc interface{ Do(ctx context.Context) bool }''', '''
package main

import (
	"context"
	"time"
)

type impl struct{}

func (impl) Do(ctx context.Context) bool {
	_, ok := ctx.Deadline()
	return ok
}

func main() {
	if !NewSvcWithTimeout(impl{}, SvcWithTimeoutConfig{DoTimeout: time.Second}).Do(context.Background()) {
		panic("no deadline")
	}
}
'''))

seed('c21-second-argument', 'C21', [('templates/validate',
'{{if not ( and $method.AcceptsContext (eq $param.Name "ctx")) }}', '{{if not ( or $method.AcceptsContext (eq $param.Name "ctx")) }}')],
"a method that accepts a context and an argument that doesn't pass its validation",
"the invalid argument reaches the implementation",
DEC('validate', '''import "context"

type Svc interface{ Do(ctx context.Context, r Req) error }''', '''
package main

import (
	"context"
	"errors"
)

type Req struct{}

func (Req) Validate() error { return errors.New("invalid") }

type impl struct{}

func (impl) Do(context.Context, Req) error { panic("called") }

func main() {
	if NewSvcWithValidation(impl{}).Do(context.Background(), Req{}) == nil {
		panic("no error")
	}
}
'''))

seed('c21-format', 'C21', [('templates/grpc_validate',
'grpc_status.Error(grpc_codes.InvalidArgument, err.Error())', 'grpc_status.Errorf(grpc_codes.InvalidArgument, err.Error())')],
"a validation error whose message has a percent sign",
"the message is mangled",
DEC('grpc_validate', '''type Svc interface{ Do(r Req) error }''', '''
package main

import (
	"errors"
	"strings"
)

type Req struct{}

func (Req) Validate() error { return errors.New("100%done") }

type impl struct{}

func (impl) Do(Req) error { panic("called") }

func main() {
	if err := NewSvcWithGRPCValidation(impl{}).Do(Req{}); !strings.Contains(err.Error(), "100%done") {
		panic(err)
	}
}
'''), third=True)

seed('c22-cause', 'C22', [('templates/twirp_error',
"			twerr = twirp.InternalErrorWith(err)", "			twerr = twirp.InternalError(err.Error())")],
"an implementation that returns an error of its own that the caller unwraps",
"the cause of the error is lost",
DEC('twirp_error', '''type Svc interface{ Do(r int) error }''', '''
package main

import "errors"

var errFailed = errors.New("failed")

type impl struct{}

func (impl) Do(int) error { return errFailed }

func main() {
	if err := NewSvcWithTwirpError(impl{}).Do(1); !errors.Is(err, errFailed) {
		panic(err)
	}
}
'''), third=True)

seed('c23-empty-message', 'C23', [('templates/log',
"            if err != nil {\n              _d._errlog", "            if err != nil && err.Error() != \"\" {\n              _d._errlog")],
"an error with an empty message",
"the failed call is logged as a successful one",
DEC('log', '''type Svc interface{ Do() error }''', '''
package main

import (
	"bytes"
	"errors"
)

type impl struct{}

func (impl) Do() error { return errors.New("") }

func main() {
	var out, errs bytes.Buffer
	NewSvcWithLog(impl{}, &out, &errs).Do()
	if errs.Len() == 0 {
		panic(out.String())
	}
}
'''))

seed('c23-panicking-call', 'C23', [('templates/logrus',
'''      defer func() {
        {{- if $method.HasResults}}
''', '''      {{if not $method.HasResults}}{{$method.Pass "_d._base."}}{{end}}
      defer func() {
        {{- if $method.HasResults}}
''')],
"x", "x", "exit 0\n")
SEEDS.pop()

seed('c24-unexported', 'C24', [('templates/prometheus',
'        result := "ok"', '        _method, result := "{{upFirst $method.Name}}", "ok"'),
('templates/prometheus', '(_d._instanceName, "{{$method.Name}}", result)', '(_d._instanceName, _method, result)')],
"an interface with methods whose names differ only in the case of the first letter",
"calls of an unexported method are counted under the name of another one",
DEC('prometheus', '''type Svc interface {
	Do()
	do()
}''', '''
package main

import (
	"fmt"

	"github.com/prometheus/client_golang/prometheus"
)

type impl struct{}

func (impl) Do() {}
func (impl) do() {}

func main() {
	d := NewSvcWithPrometheus(impl{}, "i")
	d.Do()
	d.do()
	mfs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		panic(err)
	}
	n := 0
	for _, mf := range mfs {
		if mf.GetName() == "svc_duration_seconds" {
			n += len(mf.GetMetric())
		}
	}
	if n != 2 {
		panic(fmt.Sprint(n, " label sets"))
	}
}
'''), third=True)

seed('c24-rounded', 'C24', [('templates/prometheus',
'_since := time.Now()', '_since := time.Now().UnixMilli()'),
('templates/prometheus', 'time.Since(_since).Seconds()', 'float64(time.Now().UnixMilli() - _since) / 1000')],
"a call that takes less than a millisecond",
"the duration is observed as zero",
DEC('prometheus', '''type Svc interface{ Do() }''', '''
package main

import "github.com/prometheus/client_golang/prometheus"

type impl struct{}

func (impl) Do() {}

func sum() (s float64) {
	mfs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		panic(err)
	}
	for _, mf := range mfs {
		if mf.GetName() == "svc_duration_seconds" {
			s = mf.GetMetric()[0].GetSummary().GetSampleSum()
		}
	}
	return s
}

func main() {
	d := NewSvcWithPrometheus(impl{}, "i")
	d.Do()
	before := sum()
	for i := 0; i < 20; i++ {
		d.Do()
	}
	if sum() == before {
		panic("no time has passed")
	}
}
'''), third=True)

seed('c25-end-order', 'C25', [('templates/opentracing',
"        {{end}}\n        _span.Finish()\n      }()\n",
"        {{end}}\n      }()\n      {{if $method.ReturnsError}}defer func() {\n        if err == nil || _d._spanDecorator == nil {\n          _span.Finish()\n        }\n      }(){{else}}defer _span.Finish(){{end}}\n")],
"a failed call of a decorator that has a span decorator",
"the span is never finished",
DEC('opentracing', '''import "context"

type Svc interface{ Do(ctx context.Context) error }''', '''
package main

import (
	"context"
	"errors"

	"github.com/opentracing/opentracing-go"
	"github.com/opentracing/opentracing-go/mocktracer"
)

type impl struct{}

func (impl) Do(context.Context) error { return errors.New("failed") }

func main() {
	t := mocktracer.New()
	opentracing.SetGlobalTracer(t)
	NewSvcWithTracing(impl{}, "i", func(opentracing.Span, map[string]interface{}, map[string]interface{}) {}).Do(context.Background())
	if n := len(t.FinishedSpans()); n != 1 {
		panic(n)
	}
}
''', '') , third=True)

seed('c25-otel-context', 'C25', [('templates/opentelemetry',
"  ctx, _span := otel", "  _, _span := otel")],
"an implementation that starts a span of its own",
"the spans of the implementation aren't children of the span of the call",
heredoc('a.go', '''
package demo

import "context"

type Svc interface{ Do(ctx context.Context) error }
''') + '''"$S/gowrap" gen -p . -i Svc -t "$T/opentelemetry" -o dec.go || fail "gen"
grep -q "ctx, _span :\\?=" dec.go || grep -q "Start(ctx" dec.go && ! grep -q "_, _span" dec.go || fail "$(grep -n _span dec.go)"
echo fine
''')
SEEDS.pop()

seed('c26-trimmed', 'C26', [(CG,
"varFlag{name: chunks[0], value: chunks[1]}", "varFlag{name: chunks[0], value: strings.TrimSpace(chunks[1])}")],
"a variable whose value has spaces at its ends",
"the value isn't passed verbatim",
heredoc('a.go', '''
package demo

type Svc interface{ Do() }
''') + heredoc('t', '''
const V = "[{{.Vars.sep}}]"
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go -v "sep=, " || fail "gen"
grep -qF '"[, ]"' out.go || fail "$(grep V out.go)"
echo fine
''')

seed('c26-repeated', 'C26', [(CG,
"		m[vf.name] = vf.value\n", "		if _, ok := m[vf.name].(string); !ok {\n			m[vf.name] = vf.value\n		}\n")],
"a variable that is given twice",
"the first value is used",
heredoc('a.go', '''
package demo

type Svc interface{ Do() }
''') + heredoc('t', '''
const V = "[{{.Vars.x}}]"
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go -v x=1 -v x=2 || fail "gen"
grep -qF '"[2]"' out.go || fail "$(grep V out.go)"
echo fine
''')

seed('c27-breaker-lock', 'C27', [('templates/circuitbreaker',
"      _d._lock.Lock()\n      defer _d._lock.Unlock()\n", "      _d._lock.RLock()\n      defer _d._lock.RUnlock()\n")],
"concurrent calls",
"the state of the decorator is written under a read lock",
DEC('circuitbreaker', '''type Svc interface{ Do() error }''', '''
package main

import (
	"errors"
	"runtime"
	"sync"
	"time"
)

type impl struct{}

func (impl) Do() error { return errors.New("failed") }

func main() {
	runtime.GOMAXPROCS(4)
	for i := 0; i < 200; i++ {
		d := NewSvcWithCircuitBreaker(impl{}, 1<<30, time.Hour)
		var wg sync.WaitGroup
		for i := 0; i < 4; i++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 2000; i++ {
					d.Do()
				}
			}()
		}
		wg.Wait()
		if d._consecutiveErrors != 8000 {
			panic(d._consecutiveErrors)
		}
	}
}
'''))

seed('c29-nested-args', 'C29', [('generator/generics.go',
"		subParamNames = append(subParamNames, subParam.String())", "		subParamNames = append(subParamNames, subParam.Name)")],
"an embedded generic interface whose argument is an instantiated type",
"x", "exit 0\n")
SEEDS.pop()

seed('c30-twin-package', 'C30', [(G,
"	if srcPackage.PkgPath == dstPackage.PkgPath {",
"	if srcPackage.PkgPath == dstPackage.PkgPath || dstPackage.PkgPath == \"\" && srcPackage.Name == dstPackage.Name {")],
"a new output directory named like the source package",
"the decorator refers to the interface without its package",
heredoc('store/a.go', '''
package store

type Svc interface{ Do() }
''') + heredoc('t', '''
type Dec struct{ base {{.Interface.Type}} }
''') + '''"$S/gowrap" gen -p ./store -i Svc -t t -o ./dec/store/out.go || fail "gen"
go build ./... || fail "decorator doesn't compile"
echo fine
''')


seed('c04-pointer-structs', 'C04', [(TY,
"			ss = append(ss, p.Name+\" *\"+strings.Replace(p.Type, \"...\", \"[]\", 1))",
"			ss = append(ss, p.Name+\" *\"+strings.Join(strings.Split(p.Type, \"...\"), \"[]\"))")],
"ParamPtrsStruct of a method with a variadic parameter whose type has an ellipsis inside",
"the struct has a field of a different type",
heredoc('a.go', '''
package main

type Svc interface {
	Do(fs ...func(args ...string))
}

func main() {}
''') + heredoc('t', '''
type Dec struct{ base {{.Interface.Type}} }

{{range $m := .Interface.Methods}}func (d Dec) {{$m.Declaration}} {
	p := {{$m.ParamPtrsStruct}}{ &{{$m.ParamsNames}} }
	d.base.{{$m.Name}}((*p.{{(index $m.Params 0).Name}})...)
}
{{end}}
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
go build -o /dev/null . || fail "decorator doesn't compile"
echo fine
''')

seed('c04-bare-call', 'C04', [(TY,
"	return prefix + m.Call() + \"\\nreturn\"",
"	if m.HasParams() {\n		return prefix + m.Call() + \"\\nreturn\"\n	}\n\n	return prefix + m.Call()")],
"a template with statements after Pass and a method without parameters and results",
"Pass doesn't return from the method: what follows it is executed",
heredoc('a.go', '''
package main

type Svc interface {
	Do()
}

type impl struct{}

func (impl) Do() {}

func main() {
	(Dec{impl{}}).Do()
}
''') + heredoc('t', '''
type Dec struct{ base {{.Interface.Type}} }

{{range $m := .Interface.Methods}}func (d Dec) {{$m.Declaration}} {
	if d.base != nil {
		{{$m.Pass "d.base."}}
	}
	panic("no implementation")
}
{{end}}
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
go run . || fail "the decorator goes on after Pass"
echo fine
''')

seed('c12-shared-buffer', 'C12', [(G,
"	buf := bytes.NewBuffer([]byte{})\n\n	err := g.headerTemplate",
"	buf := &outputBuffer\n	buf.Reset()\n\n	err := g.headerTemplate"), (G,
"// Generate generates code using header and body templates\n",
"// outputBuffer is reused to spare the allocations\nvar outputBuffer bytes.Buffer\n\n// Generate generates code using header and body templates\n")],
"generators that run concurrently",
"the outputs are mixed up",
LOADER('''
package main

import (
	"bytes"
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/hexdigest/gowrap/generator"
	"github.com/hexdigest/gowrap/pkg"
)

func main() {
	p, err := pkg.Load("io")
	if err != nil {
		panic(err)
	}
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			line := fmt.Sprintf("// line of %d\\n", i)
			opts := generator.Options{InterfaceName: "Reader", OutputFile: "./zz/out.go", SourcePackage: "io", SourcePackageInstance: p,
				HeaderTemplate: "package zz\\n", BodyTemplate: strings.Repeat(line, 2000)}
			g, err := generator.NewGenerator(opts)
			if err != nil {
				panic(err)
			}
			for n := 0; n < 20; n++ {
				var buf bytes.Buffer
				if err := g.Generate(&buf); err != nil || strings.Count(buf.String(), line) != 2000 || strings.Count(buf.String(), "line of") != 2000 {
					fmt.Println("mixed up", err)
					os.Exit(1)
				}
			}
		}(i)
	}
	wg.Wait()
}
'''))

seed('c14-own-deadlines', 'C14', [('templates/retry',
"      if err == nil || _d._retryCount < 1 {", "      if err == nil || _d._retryCount < 1 {{if $method.AcceptsContext}}|| errors.Is(err, context.DeadlineExceeded){{end}} {")],
"an implementation that fails with a deadline error of its own while the context of the caller is alive",
"the call isn't retried",
DEC('retry', '''import "context"

type Svc interface{ Do(ctx context.Context) error }''', '''
package main

import (
	"context"
	"time"
)

type impl struct{ n *int }

func (i impl) Do(ctx context.Context) error {
	*i.n++
	ctx, cancel := context.WithTimeout(ctx, time.Nanosecond)
	defer cancel()
	<-ctx.Done()
	return ctx.Err()
}

func main() {
	n := 0
	NewSvcWithRetry(impl{&n}, 3, time.Millisecond).Do(context.Background())
	if n != 4 {
		panic(n)
	}
}
'''))

seed('c16-extra-burst', 'C16', [('templates/ratelimit',
"make(chan time.Time, burst),", "make(chan time.Time, burst+1),")],
"a decorator that has been idle for a while before a burst of calls",
"one more call than allowed gets through",
DEC('ratelimit', '''type Svc interface{ Do() }''', '''
package main

import "time"

type impl struct{}

func (impl) Do() {}

func main() {
	d := NewSvcWithRateLimit(impl{}, 1, 1)
	time.Sleep(5500 * time.Millisecond)
	start := time.Now()
	for i := 0; i < 4; i++ {
		d.Do()
	}
	if t := time.Since(start); t < 300*time.Millisecond {
		panic(t)
	}
}
'''))

seed('c17-pool-ends', 'C17', [('templates/robinpool',
'''  if len(pool) == 0 {
    panic("empty pool")
  }
''', '''  if n := len(pool); n == 0 {
    panic("empty pool")
  } else if n > 2 && pool[0] == pool[n-1] {
    pool = pool[:n-1]
  }
''')],
"a pool that begins and ends with the same implementation, made by MustNew",
"the implementation that was given twice isn't called twice as often",
DEC('robinpool', '''type Svc interface{ Do() }''', '''
package main

type impl struct{ n int }

func (i *impl) Do() { i.n++ }

func main() {
	a, b := &impl{}, &impl{}
	d := MustNewSvcRoundRobinPool(a, b, a)
	for i := 0; i < 9; i++ {
		d.Do()
	}
	if a.n != 6 || b.n != 3 {
		panic("not in rotation")
	}
}
'''))

seed('c28-same-size', 'C28', [(CG,
"	return gc.filepath.WriteFile(gc.outputFile, buf.Bytes(), 0664)\n}",
"	return gc.write(buf.Bytes())\n}\n\n// write keeps the modification time of the file that doesn't change\nfunc (gc *GenerateCommand) write(data []byte) error {\n	if fi, err := os.Stat(gc.outputFile); err == nil && fi.Size() == int64(len(data)) {\n		return nil\n	}\n\n	return gc.filepath.WriteFile(gc.outputFile, data, 0664)\n}")],
"an edit of the source after which the generated file has the size it had",
"the decorator isn't regenerated",
heredoc('a.go', '''
package demo

type Svc interface{ Dip() }
''') + heredoc('t', '''
{{range $n, $m := .Interface.Methods}}// {{$n}};
{{end}}
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
sed -i s/Dip/Dop/ a.go
"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
grep -q "^// Dop;" out.go || fail "$(cat out.go)"
echo fine
''')

seed('c29-nested-args', 'C29', [('generator/generics.go',
"		subParamNames = append(subParamNames, subParam.String())", "		subParamNames = append(subParamNames, subParam.Name)")],
"an embedded generic interface whose argument is a type instantiated with an instantiated type",
"the inner type arguments are lost",
heredoc('a.go', '''
package main

type Box[T any] struct{ V T }

type Getter[T any] interface {
	Get() T
}

type Svc interface {
	Getter[Box[Box[int]]]
}

func main() {}
''') + heredoc('t', '''
type Dec struct{ base {{.Interface.Type}} }

{{range $m := .Interface.Methods}}func (d Dec) {{$m.Declaration}} { {{$m.Pass "d.base."}} }
{{end}}

var _ {{.Interface.Type}} = Dec{}
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
go build -o /dev/null . || fail "decorator doesn't compile"
echo fine
''')

seed('c29-alias-constraint', 'C29', [('generator/generics.go',
"	for _, at := range allTypes {\n		if at.Name.Name == t.Name {",
"	for _, at := range allTypes {\n		if at.Name.Name == t.Name && at.Assign == token.NoPos {")],
"a type parameter constrained by an alias of the source package, decorated in another package",
"the constraint isn't qualified",
heredoc('src/a.go', '''
package src

type Num = interface{ ~int }

type Ord interface{ ~int }

type Store[K Num, V Ord] interface{ Get(k K) V }
''') + heredoc('t', '''
type Dec{{.Interface.Generics.Types}} struct{ base {{.Interface.Type}}{{.Interface.Generics.Params}} }
''') + '''"$S/gowrap" gen -p ./src -i Store -t t -o dst/out.go || fail "gen"
go build ./... || fail "decorator doesn't compile"
echo fine
''')

seed('c30-hidden-dir', 'C30', [(G,
'''	if !strings.HasPrefix(dstPackagePath, "/") && !strings.HasPrefix(dstPackagePath, "./") {''',
'''	if !strings.HasPrefix(dstPackagePath, "/") && !strings.HasPrefix(dstPackagePath, ".") {''')],
"a source package in a directory whose relative path begins with a dot, decorated in place",
"the decorator imports its own package",
heredoc('.gen/a.go', '''
package gen

type Svc interface{ Do() }
''') + heredoc('t', '''
type Dec struct{ base {{.Interface.Type}} }
''') + '''"$S/gowrap" gen -p ./.gen -i Svc -t t -o .gen/out.go || fail "gen"
grep -q "base Svc" .gen/out.go || fail "$(grep base .gen/out.go)"
go build ./.gen || fail "decorator doesn't compile"
echo fine
''')

# ---------------------------------------------------------------- through the model of the method
seed('c14-two-errors', 'C14', [(TY,
'	if m.ReturnsError {\n		m.Results',
'	if m.ReturnsError = m.ReturnsError && len(f.Results.List[len(f.Results.List)-1].Names) < 2; m.ReturnsError {\n		m.Results')],
"a method whose last results are declared together, as in (warning, failure error)",
"retry doesn't repeat its failed calls",
DEC('retry', '''type Svc interface{ Do() (warning, failure error) }''', '''
package main

import "errors"

type impl struct{ n *int }

func (i impl) Do() (error, error) { *i.n++; return nil, errors.New("failed") }

func main() {
	n := 0
	NewSvcWithRetry(impl{&n}, 2, 1).Do()
	if n != 3 {
		panic(n)
	}
}
'''))

seed('c20-two-contexts', 'C20', [(TY,
'	if len(f.Params.List) > 0 {\n',
'	if len(f.Params.List) > 0 && len(f.Params.List[0].Names) < 2 {\n')],
"a method whose first parameters are declared together, as in (ctx, parent context.Context)",
"its context gets no timeout",
DEC('timeout', '''import "context"

type Svc interface{ Do(ctx, parent context.Context) error }''', '''
package main

import (
	"context"
	"time"
)

type impl struct{}

func (impl) Do(ctx, parent context.Context) error {
	if _, ok := ctx.Deadline(); !ok {
		panic("no deadline")
	}
	return nil
}

func main() {
	NewSvcWithTimeout(impl{}, SvcWithTimeoutConfig{DoTimeout: time.Minute}).Do(context.Background(), context.Background())
}
'''))

seed('c25-params-map', 'C25', [(TY,
'''	for _, p := range m.Params {
		ss = append(ss, `"`+p.Name+`": `+p.Name)
	}
	return "map[string]interface{}{\\n" + strings.Join(ss, ",\\n ") + "}"
''',
'''	known := map[string]bool{}
	for _, p := range m.Params {
		if key := strings.ToLower(p.Name); !known[key] {
			known[key] = true
			ss = append(ss, `"`+p.Name+`": `+p.Name)
		}
	}
	return "map[string]interface{}{\\n" + strings.Join(ss, ",\\n ") + "}"
''')],
"parameters whose names differ in case only",
"the span decorator doesn't see the second one",
DEC('opentracing', '''import "context"

type Svc interface{ Do(ctx context.Context, n, N int) error }''', '''
package main

import (
	"context"
	"fmt"

	"github.com/opentracing/opentracing-go"
	"github.com/opentracing/opentracing-go/mocktracer"
)

type impl struct{}

func (impl) Do(context.Context, int, int) error { return nil }

func main() {
	opentracing.SetGlobalTracer(mocktracer.New())
	var seen map[string]interface{}
	NewSvcWithTracing(impl{}, "i", func(_ opentracing.Span, params, results map[string]interface{}) { seen = params }).Do(context.Background(), 1, 2)
	if seen["n"] != 1 || seen["N"] != 2 {
		panic(fmt.Sprint(seen))
	}
}
'''), third=True)

# ---------------------------------------------------------------- engine
seed('c28-type-check', 'C28', [('pkg/package.go',
'packages.NeedImports |', 'packages.NeedTypes | packages.NeedSyntax | packages.NeedImports |')],
"a decorator of a previous version of the interface that no longer compiles",
"gowrap refuses to regenerate it",
heredoc('a.go', '''
package demo

type Svc interface{ Dip() }
''') + '''"$S/gowrap" gen -p . -i Svc -t "$T/log" -o out.go || fail "gen"
cat > a.go <<'EOF_A'
package demo

type Svc interface{ Dip(n int) error }

var _ Svc = SvcWithLog{}
EOF_A
"$S/gowrap" gen -p . -i Svc -t "$T/log" -o out.go || fail "regen"
go build ./... || fail "doesn't compile"
echo fine
''')

seed('c31-generated-source', 'C31', [(G,
'''		if f != nil {
			for _, ts := range typeSpecs(f) {
''', '''		if f != nil && (!ast.IsGenerated(f) || f.Doc != nil) {
			for _, ts := range typeSpecs(f) {
''')],
"an interface in a generated file without a package comment, as protoc writes them",
"the interface isn't found",
heredoc('a.go', '''
// Code generated by protoc-gen-demo. DO NOT EDIT.

package demo

type Svc interface{ Dip() }
''') + '''"$S/gowrap" gen -p . -i Svc -t "$T/log" -o out.go || fail "gen"
go vet ./... || fail "doesn't compile"
echo fine
''')

seed('c12-sticky-prefix', 'C12', [(G,
'''	imports.LocalPrefix = g.localPrefix
''', '''	if g.localPrefix != "" {
		imports.LocalPrefix = g.localPrefix
	}
'''), (G,
'''		localPrefix:    options.LocalPrefix,
''', '''		localPrefix:    strings.TrimSpace(options.LocalPrefix),
''')],
"a generator with a local prefix and then one without it in the same process",
"the second one groups the imports by the prefix of the first one",
LOADER('''
package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/hexdigest/gowrap/generator"
)

func generate(prefix string) string {
	g, err := generator.NewGenerator(generator.Options{InterfaceName: "Reader", OutputFile: "./zz/out.go", SourcePackage: "io", LocalPrefix: prefix,
		HeaderTemplate: "package zz\\n", BodyTemplate: "import (\\n\\"errors\\"\\n\\"os\\"\\n)\\nvar _, _ = errors.New, os.Exit\\n"})
	if err != nil {
		panic(err)
	}
	var buf bytes.Buffer
	if err := g.Generate(&buf); err != nil {
		panic(err)
	}
	return buf.String()
}

func main() {
	alone := generate("")
	generate("os")
	if again := generate(""); again != alone {
		fmt.Println(alone, again)
		os.Exit(1)
	}
}
'''))

seed('c07-helper-once', 'C07', [(G,
'''		allImports[strings.TrimSpace(i)] = struct{}{}
''', '''		allImports[strings.TrimPrefix(i, " ")] = struct{}{}
'''), (G,
'''	for i, im := range imports {
		var name string
		if im.Name != nil {
			name = im.Name.Name
		}
		result[i] = name + " " + im.Path.Value
	}
''', '''	for i, im := range imports {
		name := " "
		if im.Name != nil {
			name = im.Name.Name
		}
		result[i] = name + " " + im.Path.Value
	}
''')],
"a template that passes to the Import helper a package that the file of the interface imports",
"the import is rendered twice",
heredoc('a.go', '''
package demo

import "time"

type Svc interface{ Dip(time.Time) }
''') + heredoc('t', '''
const Text = {{ .Import "time" | printf "%q" }}
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
[ "$(grep -o 'time' out.go | wc -l)" = 1 ] || fail "$(cat out.go)"
echo fine
''')

seed('c26-last-equal-sign', 'C26', [(CG,
'''	chunks := strings.SplitN(s, "=", 2)
''', '''	chunks := strings.SplitN(strings.TrimSuffix(s, "="), "=", 2)
''')],
"a variable whose text ends with an equal sign, i.e. base64",
"the template gets the text without it",
heredoc('a.go', '''
package demo

type Svc interface{ Dip() }
''') + heredoc('t', '''
const Text = "{{ .Vars.a }}"
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go -v a=QQ== || fail "gen"
grep -q 'Text = "QQ=="' out.go || fail "$(cat out.go)"
echo fine
''')

seed('c01-tenth-name', 'C01', [(TY,
'''	name := fmt.Sprintf("%s%d", prefix, n)
''', '''	name := prefix + string(rune('0'+n))
''')],
"a method with ten unnamed parameters of one type",
"the decorator does not compile",
heredoc('a.go', '''
package demo

type Svc interface{ Dip(int, int, int, int, int, int, int, int, int, int) int }
''') + '''"$S/gowrap" gen -p . -i Svc -t "$T/log" -o out.go || fail "gen"
go vet . || fail "the decorator does not compile"
echo fine
''')

seed('c13-variadic-any', 'C13', [(TY,
'''	if p.Variadic {
		return p.Name + "..."
''', '''	if p.Variadic && p.Type != "...any" {
		return p.Name + "..."
''')],
"a method with parameters of type ...any",
"the implementation gets one argument, the slice, instead of the arguments",
heredoc('a.go', '''
package demo

type Svc interface{ Dip(args ...any) int }
''') + heredoc('a_test.go', '''
package demo

import "testing"

type impl struct{}

func (impl) Dip(args ...any) int { return len(args) }

func TestDip(t *testing.T) {
	if n := NewSvcWithRateLimit(impl{}, 4, 1000).Dip(1, 2, 3); n != 3 {
		t.Fatal(n)
	}
}
''') + '''"$S/gowrap" gen -p . -i Svc -t "$T/ratelimit" -o out.go || fail "gen"
go test . || fail "the arguments arrive changed"
echo fine
''')

seed('c03-variadic-context', 'C03', [(TY,
'''	if m.AcceptsContext {
''', '''	if len(f.Params.List) > 0 && !m.AcceptsContext {
		if e, ok := f.Params.List[0].Type.(*ast.Ellipsis); ok {
			m.AcceptsContext = isContext(e.Elt)
		}
	}

	if m.AcceptsContext && len(m.Params) > 0 {
''')],
"a method whose only parameter is ...context.Context",
"AcceptsContext is true and the parameter is called ctx",
heredoc('a.go', '''
package demo

import "context"

type Svc interface{ Dip(all ...context.Context) error }
''') + heredoc('t', '''
const Text = "{{range .Interface.Methods}}{{.AcceptsContext}} {{.ParamsNames}}{{end}}"
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
grep -q '"false all"' out.go || fail "$(cat out.go)"
echo fine
''')

seed('c06-repeated-vars', 'C06', [(CG,
'''	var ss []string

	for _, vf := range v {
''', '''	var ss []string

	for i, vf := range v {
		if i > 0 && v[0].name == vf.name {
			continue
		}

''')],
"a variable that is set twice",
"go generate uses the other value",
heredoc('a.go', '''
package demo

type Svc interface{ Dip() }
''') + heredoc('t', '''
const Text = "{{ .Vars.a }}"
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go -v a=2 -v a=1 || fail "gen"
cp out.go first
PATH="$S:$PATH" go generate . || fail "go generate"
cmp first out.go || fail "go generate gives another file"
echo fine
''')

seed('c07-prefix-slash', 'C07', [(CG,
'''		LocalPrefix: gc.localPrefix,
''', '''		LocalPrefix: strings.TrimRight(gc.localPrefix, "/"),
''')],
"a local prefix that ends with a slash and an import whose path only starts like it",
"an import that does not match is put in the group of the local ones",
heredoc('a.go', '''
package demo

import (
	"demo/ownx"
	"demo/own/api"
)

type Svc interface{ Dip(api.T, ownx.T) }
''') + heredoc('ownx/o.go', '''
package ownx

type T int
''') + heredoc('own/api/o.go', '''
package api

type T int
''') + '''"$S/gowrap" gen -p . -i Svc -t "$T/ratelimit" -o out.go -l demo/own/ || fail "gen"
go vet . || fail "vet"
awk '/demo\\/ownx"/{a=NR} /demo\\/own\\/api"/{b=NR} END{exit !(a>0 && b>a+1)}' out.go || fail "$(cat out.go)"
echo fine
''')

seed('c12-shared-vars', 'C12', [(G,
'''	if options.Vars == nil {
		options.Vars = make(map[string]interface{})
	}
''', '''	if options.Vars["DecoratorName"] == nil {
		if len(options.Vars) == 0 {
			options.Vars = make(map[string]interface{})
		}
		options.Vars["DecoratorName"] = nil
	}
''')],
"generators made at once with options that share the map of variables",
"the map is written concurrently",
heredoc('a.go', '''
package demo

type Svc interface{ Dip() }
''') + '''mkdir -p "$repo/cmd/zz_demo" && trap 'rm -rf "$S" "$repo/cmd/zz_demo"' EXIT
cat > "$repo/cmd/zz_demo/main.go" <<'EOF_DEMO'
package main

import (
	"fmt"
	"os"

	"github.com/hexdigest/gowrap/generator"
)

func main() {
	vars := map[string]interface{}{"Text": "x"}
	_, err := generator.NewGenerator(generator.Options{InterfaceName: "Svc", SourcePackage: "demo", OutputFile: "out.go", HeaderTemplate: "package demo", BodyTemplate: "const X = 1", Vars: vars})
	fmt.Println(err)
	if len(vars) != 1 || err != nil {
		fmt.Println("the caller's variables are written:", vars)
		os.Exit(1)
	}
}
EOF_DEMO
(cd "$repo" && go build -o "$S/zz" ./cmd/zz_demo) || exit 3
"$S/zz" || fail "NewGenerator writes to the shared map"
echo fine
''')

seed('c09-empty-file', 'C09', [(CG,
'''	tmpl, err = l.fileReader(template)
	if err != nil {
		if !os.IsNotExist(err) {
			return
		}

		return l.remoteLoader.Load(template)
	}
''', '''	tmpl, err = l.fileReader(template)
	if err != nil || len(tmpl) == 0 {
		if err != nil && !os.IsNotExist(err) {
			return
		}

		return l.remoteLoader.Load(template)
	}
''')],
"a local template that is empty and called like a remote one",
"the remote template is used",
heredoc('a.go', '''
package demo

type Svc interface{ Dip() }
''') + '''true > log
"$S/gowrap" gen -p . -i Svc -t log -o out.go || fail "the empty local template is not used"
grep -q With out.go && fail "another template was used"
echo fine
''')

seed('c10-trimmed-copy', 'C10', [('cmd_template.go',
'''	if err := wf(dstFileName, body, 0777); err != nil {
''', '''	if err := wf(dstFileName, bytes.TrimPrefix(body, []byte("\\xef\\xbb\\xbf")), 0777); err != nil {
'''), ('cmd_template.go', '''import (
''', '''import (
	"bytes"
''')],
"a remote template that begins with a byte order mark",
"the copy lacks it",
'''printf '\\xef\\xbb\\xbfconst x = 1\\n' > remote
"$S/gowrap" template copy "file://$PWD/remote" local || fail "copy"
cmp remote local || fail "the copy differs"
echo fine
''')

seed('c29-grouped-names', 'C29', [('generator/generics.go',
'''		for _, name := range param.Names {
			if name != nil {
				paramNames = append(paramNames, name.Name)
			}
		}
''', '''		for _, name := range param.Names {
			if name != nil && (len(paramNames) == 0 || name.Name != "_" && len(name.Name) != 2) {
				paramNames = append(paramNames, name.Name)
			}
		}
''')],
"a type parameter with a name of two letters that is declared after another one with the same constraint",
"the decorator has too few type parameters",
heredoc('a.go', '''
package demo

type Svc[K, V1 any] interface{ Dip(K) V1 }
''') + heredoc('t', '''
type D{{.Interface.Generics.Types}} struct{ base {{.Interface.Type}}{{.Interface.Generics.Params}} }

var _ Svc[int, string] = D[int, string]{}
{{range .Interface.Methods}}
func (d D{{$.Interface.Generics.Params}}) {{.Declaration}} { {{.Pass "d.base."}} }
{{end}}
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
go vet . || fail "vet"
echo fine
''')

seed('c19-embedded-results', 'C19', [(TY,
'''	for _, r := range m.Results {
		ss = append(ss, structName+"."+r.Name)
	}
''', '''	for i, r := range m.Results {
		if i > 0 && len(m.Results) > 3 && r.Type == m.Results[i-1].Type {
			r = m.Results[i-1]
		}
		ss = append(ss, structName+"."+r.Name)
	}
''')],
"a method with at least four results, neighbours of which have one type",
"fallback returns one of them twice",
heredoc('a.go', '''
package demo

type Svc interface{ Dip() (a, b int, s string, err error) }
''') + heredoc('a_test.go', '''
package demo

import (
	"testing"
	"time"
)

type impl struct{}

func (impl) Dip() (int, int, string, error) { return 1, 2, "x", nil }

func TestDip(t *testing.T) {
	a, b, s, err := NewSvcWithFallback(time.Second, impl{}).Dip()
	if a != 1 || b != 2 || s != "x" || err != nil {
		t.Fatal(a, b, s, err)
	}
}
''') + '''"$S/gowrap" gen -p . -i Svc -t "$T/fallback" -o out.go || fail "gen"
go test . || fail "the results differ"
echo fine
''')

seed('c23-params-names', 'C23', [(TY,
'''	for _, p := range m.Params {
		ss = append(ss, p.Name)
	}
''', '''	for i, p := range m.Params {
		if i > 6 {
			break
		}
		ss = append(ss, p.Name)
	}
''')],
"a method with more than seven parameters",
"log does not write the others",
heredoc('a.go', '''
package demo

type Svc interface{ Dip(a, b, c, d, e, f, g, h int) }
''') + heredoc('a_test.go', '''
package demo

import (
	"bytes"
	"strings"
	"testing"
)

type impl struct{}

func (impl) Dip(a, b, c, d, e, f, g, h int) {}

func TestDip(t *testing.T) {
	var o, e bytes.Buffer
	NewSvcWithLog(impl{}, &o, &e).Dip(1, 2, 3, 4, 5, 6, 7, 8)
	if !strings.Contains(o.String(), "7 8") {
		t.Fatal(o.String())
	}
}
''') + '''"$S/gowrap" gen -p . -i Svc -t "$T/log" -o out.go || fail "gen"
go test . || fail "the record lacks parameters"
echo fine
''')

# ---------------------------------------------------------------- options of the library
LIBRUN = r"""cp -a "$repo" "$S/repo" && mkdir "$S/repo/zzdemo" && cp main.go "$S/repo/zzdemo/" && cd "$S/repo" || exit 3
go build -o "$S/demo" ./zzdemo || exit 3
"$S/demo" || fail "see above"
echo fine
"""
LIBHEAD = """
package main

import (
	"bytes"
	"errors"
	"fmt"
	"os"

	"github.com/hexdigest/gowrap/generator"
	"github.com/hexdigest/gowrap/pkg"
)

var _ = errors.New
var _ bytes.Buffer
var _ = pkg.Load

func check(ok bool, a ...interface{}) {
	if !ok {
		fmt.Println(a...)
		os.Exit(1)
	}
}
"""

seed('c32-writer-error', 'C32', [('generator/generator.go',
"	_, err = w.Write(processedSource)\n	return err\n",
"	if n, err := w.Write(processedSource); n == 0 && err != nil {\n		return err\n	}\n\n	return nil\n")],
"a writer that fails after a part of the output",
"Generate reports success for a truncated file",
heredoc('main.go', LIBHEAD + """
type half struct{}

func (half) Write(p []byte) (int, error) { return len(p) / 2, errors.New("disk full") }

func main() {
	g, err := generator.NewGenerator(generator.Options{InterfaceName: "Reader", OutputFile: "./zz/out.go", SourcePackage: "io", HeaderTemplate: "package zz\\n", BodyTemplate: "var X = 1\\n"})
	check(err == nil, err)
	check(g.Generate(half{}) != nil, "no error")
}
""") + LIBRUN)

seed('c32-preloaded-alias', 'C32', [('generator/generator.go',
"		if options.SourcePackageAlias != \"\" {\n",
"		if options.SourcePackageAlias != \"\" && options.SourcePackageInstance != srcPackage {\n")],
"an alias together with a preloaded source package",
"the alias is ignored",
heredoc('main.go', LIBHEAD + """
func main() {
	p, err := pkg.Load("io")
	check(err == nil, err)
	g, err := generator.NewGenerator(generator.Options{InterfaceName: "Reader", OutputFile: "./zz/out.go", SourcePackage: "io", SourcePackageInstance: p, SourcePackageAlias: "stdio", HeaderTemplate: "package zz\\n", BodyTemplate: "{{.Import}}\\nvar X {{.Interface.Type}}\\n"})
	check(err == nil, err)
	var b bytes.Buffer
	check(g.Generate(&b) == nil, "no output")
	check(bytes.Contains(b.Bytes(), []byte("var X stdio.Reader")), b.String())
}
""") + LIBRUN)

seed('c32-vars-default', 'C32', [('generator/generator.go',
"	if options.Vars == nil {\n",
"	if _, ok := options.Vars[\"InterfaceName\"]; !ok && options.Vars != nil {\n		options.Vars[\"InterfaceName\"] = options.InterfaceName\n	}\n\n	if len(options.Vars) == 0 {\n")],
"one map of variables for two generators",
"the caller's map is changed, the second generator sees the interface name of the first",
heredoc('main.go', LIBHEAD + """
func main() {
	vars := map[string]interface{}{"a": "b"}
	for _, n := range []string{"Reader", "Writer"} {
		g, err := generator.NewGenerator(generator.Options{InterfaceName: n, OutputFile: "./zz/out.go", SourcePackage: "io", Vars: vars, HeaderTemplate: "package zz\\n", BodyTemplate: "// {{.Vars.InterfaceName}} {{len .Vars}}\\n"})
		check(err == nil, err)
		var b bytes.Buffer
		check(g.Generate(&b) == nil, "no output")
	}
	check(len(vars) == 1, vars)
}
""") + LIBRUN)

seed('c32-consumed-imports', 'C32', [('generator/generator.go',
"	for _, i := range t.Imports {\n		allImports[strings.TrimSpace(i)] = struct{}{}\n	}\n",
"	for k, i := range t.Imports {\n		allImports[strings.TrimSpace(i)] = struct{}{}\n		t.Imports[k] = \"\"\n	}\n\n	delete(allImports, \"\")\n")],
"a generator that is run twice",
"the second output lacks the imports of the source",
heredoc('main.go', LIBHEAD + """
func main() {
	g, err := generator.NewGenerator(generator.Options{InterfaceName: "Reader", OutputFile: "./zz/out.go", SourcePackage: "io", HeaderTemplate: "package zz\\n", BodyTemplate: "{{.Import}}\\nvar X {{.Interface.Type}}\\n"})
	check(err == nil, err)
	var a, b bytes.Buffer
	check(g.Generate(&a) == nil, "no output")
	check(g.Generate(&b) == nil, "no output")
	check(a.String() == b.String(), a.String(), b.String())
}
""") + LIBRUN)

seed('c32-plain-path', 'C32', [('generator/generator.go',
"	if !strings.HasPrefix(dstPackagePath, \"/\") && !strings.HasPrefix(dstPackagePath, \"./\") {\n",
"	if !strings.HasPrefix(dstPackagePath, \"/\") && !strings.Contains(dstPackagePath, \"/\") {\n")],
"an output path of several directories without a leading ./",
"the package there isn't found, so the file gets the name of the directory",
heredoc('x/y/y.go', """
package other

type Svc interface{ Do() }
""") + """
"$S/gowrap" gen -p ./x/y -i Svc -t "$T/log" -o x/y/out.go || fail gen
go vet ./x/y || fail "another package"
echo fine
""")
seed('c29-case-params', 'C29', [('generator/generics.go',
"			if name == typeStr {", "			if strings.EqualFold(name, typeStr) {")],
"an embedded generic interface with type parameters whose names differ in case only",
"the argument of the first one is used for both",
heredoc('a.go', '''
package demo

type Table[K comparable, k any] interface{ Find(K) k }

type Svc interface{ Table[string, int] }
''') + heredoc('t', '''
type D struct{ base {{.Interface.Type}} }

var _ Svc = D{}
{{range .Interface.Methods}}
func (d D) {{.Declaration}} { {{.Pass "d.base."}} }
{{end}}
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
go vet . || fail "vet"
echo fine
''')

seed('c29-case-constraint', 'C29', [('generator/generics.go',
"		if at.Name.Name == t.Name {", "		if strings.EqualFold(at.Name.Name, t.Name) {")],
"a source package that declares a type named like a predeclared one but for the case, i.e. Any, and a constraint any",
"the constraint is qualified with the source package in another one",
heredoc('src/a.go', '''
package src

type Any struct{ V int }

type Svc[T any] interface{ Do(T) Any }
''') + heredoc('t', '''
type D{{.Interface.Generics.Types}} struct{ base {{.Interface.Type}}{{.Interface.Generics.Params}} }
''') + '''"$S/gowrap" gen -p ./src -i Svc -t t -o dst/out.go || fail "gen"
go vet ./... || fail "vet"
echo fine
''')

seed('c29-any-argument', 'C29', [('generator/generics.go',
"				if len(genericParams) > i {", "				if len(genericParams) > i && genericParams[i].Name != \"any\" {")],
"an embedded generic interface that is instantiated with any",
"the type parameter is left in the methods",
heredoc('a.go', '''
package demo

type Getter[T any] interface{ Get(key string) (T, error) }

type Svc interface{ Getter[any] }
''') + heredoc('t', '''
type D struct{ base {{.Interface.Type}} }

var _ Svc = D{}
{{range .Interface.Methods}}
func (d D) {{.Declaration}} { {{.Pass "d.base."}} }
{{end}}
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
go vet . || fail "vet"
echo fine
''')

seed('c02-blank-func-names', 'C02', [('printer/printer.go',
"			names = append(names, name.Name)\n", "			if name.Name != \"_\" {\n				names = append(names, name.Name)\n			}\n")],
"a parameter of a function type some of whose parameters are named with the blank identifier",
"the blank parameters are lost or become types",
heredoc('a.go', '''
package demo

type Svc interface{ Walk(visit func(path string, _ int, _ bool) error) }
''') + heredoc('t', '''
type D struct{ base {{.Interface.Type}} }

var _ Svc = D{}
{{range .Interface.Methods}}
func (d D) {{.Declaration}} { {{.Pass "d.base."}} }
{{end}}
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
go vet . || fail "vet"
echo fine
''')

seed('c10-spaced-destination', 'C10', [('cmd_template.go',
"	if err := wf(dstFileName, body, 0777); err != nil {", "	if err := wf(strings.TrimSpace(dstFileName), body, 0777); err != nil {"), ('cmd_template.go', "import (\n", "import (\n	\"strings\"\n")],
"template copy to a file whose name starts or ends with a space",
"the template is written to another file, which can exist",
heredoc('tmpl', '''
the template
''') + '''echo mine > copy.tmpl
"$S/gowrap" template copy "file://$PWD/tmpl" " copy.tmpl" > log 2>&1
rc=$?
[ "$(cat copy.tmpl)" = mine ] || fail "another file is overwritten"
[ $rc -ne 0 ] || [ -f " copy.tmpl" ] || fail "reported but not written"
echo fine
''')

seed('c11-case-subcommand', 'C11', [('cmd_template.go',
"	switch subcommand {", "	switch strings.ToLower(subcommand) {"), ('cmd_template.go', "import (\n", "import (\n	\"strings\"\n")],
"template Copy or template LIST",
"a subcommand that doesn't exist is executed instead of being reported with the usage",
heredoc('tmpl', '''
the template
''') + '''"$S/gowrap" template COPY "file://$PWD/tmpl" copied > log 2>&1
rc=$?
[ -e copied ] && fail "executed"
[ $rc -ne 0 ] || fail "exit 0"
grep -qi usage log || { cat log; fail "no usage"; }
echo fine
''')

seed('c03-trimmed-doc', 'C03', [('generator/types.go',
"			m.Comment = append(m.Comment, comment.Text)", "			m.Comment = append(m.Comment, strings.TrimRight(comment.Text, \" \\t*/\"))")],
"a trailing comment that is a block or ends with a star, slash or tab",
"the comment of the model isn't the one of the source and, being a block, comments out what follows",
heredoc('a.go', '''
package demo

type Svc interface {
	Do(a int) error /* blocks */
}
''') + heredoc('t', '''
type D struct{ base {{.Interface.Type}} }
{{range .Interface.Methods}}
{{range .Comment}}{{.}}
{{end}}func (d D) {{.Declaration}} { {{.Pass "d.base."}} }
{{end}}
var _ Svc = D{}
''') + '''"$S/gowrap" gen -p . -i Svc -t t -o out.go || fail "gen"
go vet . || fail "vet"
grep -q '/\\* blocks \\*/' out.go || fail "comment"
echo fine
''')

if __name__ == '__main__':
    main()
