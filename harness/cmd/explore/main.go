package main

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"verifharness/internal/core"
	"verifharness/internal/progen"
)

const tmpl = `{{$d := printf "Model%s" .Interface.Name}}
type {{$d}}{{.Interface.Generics.Types}} struct{}
{{range $m := .Interface.Methods}}
// {{$m.Name}} MODEL
func (_d {{$d}}{{$.Interface.Generics.Params}}) {{$m.Declaration}} { panic("") }
{{end}}
func _check{{$d}}{{.Interface.Generics.Types}}() { var _ {{.Interface.Type}}{{.Interface.Generics.Params}} = {{$d}}{{.Interface.Generics.Params}}{} }
`

func main() {
	seed := flag.Int64("seed", 1, "")
	n := flag.Int("n", 8, "")
	gen := flag.Bool("generics", false, "")
	local := flag.Bool("local", false, "")
	emb := flag.Bool("embeds", true, "")
	host := flag.Bool("hostile", true, "")
	drop := flag.String("drop", "", "")
	keep := flag.Bool("keep", false, "")
	flag.Parse()
	c := core.NewCtx("explore", "quick", *seed)
	if !*keep {
		defer os.RemoveAll(c.Scratch)
	}
	fmt.Println(c.Scratch)
	c.Gowrap()
	dm := map[string]bool{}
	for _, d := range strings.Split(*drop, ",") {
		dm[d] = true
	}
	var mu sync.Mutex
	fails := map[string]int{}
	core.Parallel(*n, func(i int) {
		r := rand.New(rand.NewSource(*seed*1000 + int64(i)))
		path := fmt.Sprintf("example.com/p%d", i)
		m := progen.New(r, path, progen.Opts{Interfaces: 6, Generics: *gen, Local: *local, Embeds: *emb, Hostile: *host, Drop: dm})
		dir := c.Dir(fmt.Sprintf("p%d", i))
		core.Write(dir, m.Files)
		core.Write(dir, map[string]string{"tmpl": tmpl})
		l := core.Load(core.GoRoot, dir, "./...")
		if e := l.Err(path + "/src"); e != "" {
			fmt.Println("BAD SOURCE", dir, e)
			return
		}
		for k, it := range m.Ifaces {
			out := fmt.Sprintf("./dst_%d/out.go", k)
			if it.Local {
				out = "./src/zz_" + it.Name + ".go"
			}
			res := c.Gen(dir, "gen", "-p", "./src", "-i", it.Name, "-t", "tmpl", "-o", out, "-g")
			if res.Code != 0 {
				mu.Lock()
				fmt.Println("GENFAIL", dir, it.Name, core.Clip(res.Err, 300), it.Feats)
				for _, f := range it.Feats {
					fails[f]++
				}
				mu.Unlock()
			}
		}
		l = core.Load(core.GoRoot, dir, "./...")
		for _, p := range l.Paths() {
			if !strings.HasPrefix(p, path) {
				continue
			}
			if e := l.Err(p); e != "" {
				mu.Lock()
				fmt.Println("COMPILE", p, core.Clip(e, 600))
				for k, it := range m.Ifaces {
					if strings.HasSuffix(p, fmt.Sprintf("dst_%d", k)) {
						src := m.Files["src/iface0.go"] + m.Files["src/iface1.go"]
						k := strings.Index(src, "type "+it.Name)
						e := strings.Index(src[k:], "\n}\n")
						fmt.Println(src[k : k+e+2])
					}
				}
				mu.Unlock()
			}
		}
	})
	_ = filepath.Join
	var ks []string
	for k, v := range fails {
		ks = append(ks, fmt.Sprintf("%s=%d", k, v))
	}
	sort.Strings(ks)
	fmt.Println(ks)
}
