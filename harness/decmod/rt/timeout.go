package rt

import (
	"context"
	"fmt"
	"math/rand"
	"testing"
	"time"
)

// Timeout is the monitor of the timeout decorator.
func Timeout(t *testing.T) {
	for _, ifc := range Ifaces("timeout") {
		mk := ifc.B["timeout"].(func(any, map[string]time.Duration) any)
		for _, m := range ifc.Methods() {
			for k := 0; k < N(24, 240); k++ {
				r := Rand("timeout"+ifc.Key+ifc.Where+m.Name, k)
				id := ifc.ID("timeout", m)
				cfg := map[string]time.Duration{}
				for i, x := range ifc.Methods() {
					cfg[x.Name] = []time.Duration{time.Duration(i+1) * time.Second, time.Duration(i+1) * 1500 * time.Millisecond, 0, -time.Second, 1, time.Duration(i+1) * 700 * time.Microsecond, 40 * 24 * time.Hour}[r.Intn(7)]
				}
				conf := cfg[m.Name]
				parent := []string{"none", "earlier", "later", "cancelled", "cancel-during"}[r.Intn(5)]
				hang := r.Intn(3) == 0 // the base waits for its context
				work := time.Duration(r.Int63n(int64(2 * time.Second)))
				fail := r.Intn(2) == 0
				desc := fmt.Sprintf("timeout=%v parent=%s baseWaits=%v work=%v", conf, parent, hang, work)
				dead := Bubble(t, func() {
					root := context.Background()
					ctx, cancel := context.WithCancel(root)
					defer cancel()
					switch parent {
					case "earlier":
						ctx, cancel = context.WithTimeout(ctx, 500*time.Millisecond)
						defer cancel()
					case "later":
						ctx, cancel = context.WithTimeout(ctx, time.Hour)
						defer cancel()
					case "cancelled":
						cancel()
					case "cancel-during":
						time.AfterFunc(300*time.Millisecond, cancel)
					}
					ctx, _ = MarkedCtx(ctx)
					start := time.Now()
					n := 0
					var rec *Call
					var dl time.Time
					var has bool
					var endErr error
					var ended time.Time
					impl := &Impl{On: func(c *Call) {
						n++
						rec = c
						if c.Ctx != nil {
							dl, has = c.Ctx.Deadline()
							if hang && (conf > 0 || parent != "none") {
								<-c.Ctx.Done()
								endErr, ended = c.Ctx.Err(), time.Now()
							}
						}
						time.Sleep(work)
						var err error
						if fail {
							err = FailErr()
						}
						c.SetResults(m.Res(&Fab{R: rand.New(rand.NewSource(int64(k)))}, err))
						c.End = time.Now()
					}}
					dec := mk(ifc.New(impl), cfg)
					args := m.Args(&Fab{R: r}, ctx)
					o := Invoke(dec, m, args)
					if o.Panicked {
						Viol(id, "%s: panic %v\n%s", desc, o.Panic, o.Stack)
						return
					}
					if n != 1 || rec.Method != m.Name {
						Viol(id, "%s: %d calls of the base", desc, n)
						return
					}
					if s := SameArgs(rec.Args, args); s != "" {
						Viol(id, "%s: %s", desc, s)
					}
					if s := SameAll(o.Results, rec.Results, "result"); s != "" {
						Viol(id, "%s: %s", desc, s)
					}
					if !o.At.Equal(rec.End) {
						Viol(id, "%s: returned %v after the base", desc, o.At.Sub(rec.End))
					}
					Count("calls", 1)
					if m.Ctx {
						pd, phas := ctx.Deadline()
						want, wantHas := pd, phas
						if conf > 0 {
							if w := start.Add(conf); !phas || w.Before(pd) {
								want = w
							}
							wantHas = true
						}
						if has != wantHas || (has && !dl.Equal(want)) {
							Viol(id, "%s: the base sees the deadline %v (%v) instead of %v (%v)", desc, dl.Sub(start), has, want.Sub(start), wantHas)
						}
						if hang && (conf > 0 || parent != "none") {
							exp := time.Duration(1 << 62)
							var expErr error
							try := func(at time.Duration, e error) {
								if at < exp {
									exp, expErr = at, e
								}
							}
							if conf > 0 {
								try(conf, context.DeadlineExceeded)
							}
							switch parent {
							case "earlier":
								try(500*time.Millisecond, context.DeadlineExceeded)
							case "later":
								try(time.Hour, context.DeadlineExceeded)
							case "cancelled":
								try(0, context.Canceled)
							case "cancel-during":
								try(300*time.Millisecond, context.Canceled)
							}
							if ended.Sub(start) != exp || endErr != expErr {
								Viol(id, "%s: the context of the base ends at %v with %v instead of %v with %v", desc, ended.Sub(start), endErr, exp, expErr)
							}
							Count("contexts_ended", 1)
						}
						if conf > 0 && rec.Ctx.Err() == nil {
							Viol(id, "%s: the context is not released after the return", desc)
						}
						if conf > 0 {
							Count("with_timeout", 1)
						}
					}
					Eval(id + desc)
					Sample("%s (%s) %s: base sees deadline %v (%v)", id, m.Sig(), desc, dl.Sub(start), has)
				})
				if dead != "" {
					Viol(id, "%s: %s", desc, dead)
				}
			}
		}
	}
}
