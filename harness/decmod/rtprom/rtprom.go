// Package rtprom monitors the prometheus decorator.
package rtprom

import (
	"context"
	"fmt"
	"math"
	"math/rand"
	"sync"
	"testing"
	"time"

	"decmod/rt"

	"github.com/prometheus/client_golang/prometheus"
	dto "github.com/prometheus/client_model/go"
)

type key struct{ metric, instance, method, result string }
type val struct {
	n   uint64
	sum float64
}

func gather(id string) map[key]val {
	out := map[key]val{}
	mfs, err := prometheus.DefaultGatherer.Gather()
	if err != nil {
		rt.Viol(id, "the metrics cannot be gathered: %v", err)
		return out
	}
	for _, f := range mfs {
		for _, m := range f.GetMetric() {
			k := key{metric: f.GetName()}
			known := 0
			for _, l := range m.GetLabel() {
				switch l.GetName() {
				case "instance_name":
					k.instance = l.GetValue()
					known++
				case "method":
					k.method = l.GetValue()
					known++
				case "result":
					k.result = l.GetValue()
					known++
				}
			}
			if known != 3 {
				continue
			}
			out[k] = sample(m)
		}
	}
	return out
}

func sample(m *dto.Metric) val {
	if s := m.GetSummary(); s != nil {
		return val{s.GetSampleCount(), s.GetSampleSum()}
	}
	if h := m.GetHistogram(); h != nil {
		return val{h.GetSampleCount(), h.GetSampleSum()}
	}
	return val{}
}

func diff(before, after map[key]val) map[key]val {
	out := map[key]val{}
	for k, v := range after {
		b := before[k]
		if v.n != b.n {
			out[k] = val{v.n - b.n, v.sum - b.sum}
		}
	}
	return out
}

// Prometheus is the monitor.
func Prometheus(t *testing.T) {
	for _, ifc := range rt.Ifaces("prometheus") {
		mk := ifc.B["prometheus"].(func(any, string) any)
		metric := ifc.Vars["prometheus"]["MetricName"]
		for k := 0; k < rt.N(4, 60); k++ {
			r := rt.Rand("prom"+ifc.Key+ifc.Where, k)
			id := "prometheus/" + ifc.Key
			if d := rt.Bubble(t, func() {
				inst := fmt.Sprintf("inst-%d-%d", r.Intn(3), k%4)
				want := map[key]val{}
				var cur struct {
					dur        time.Duration
					err, panic bool
					n          int
				}
				ms := ifc.Methods()
				var rec *rt.Call
				impl := &rt.Impl{On: func(c *rt.Call) {
					cur.n++
					rec = c
					time.Sleep(cur.dur)
					if cur.panic {
						panic("base")
					}
					var e error
					if cur.err {
						e = rt.FailErr()
					}
					for _, m := range ms {
						if m.Name == c.Method {
							c.SetResults(m.Res(&rt.Fab{R: rand.New(rand.NewSource(3))}, e))
						}
					}
				}}
				dec := mk(ifc.New(impl), inst)
				before := gather(id)
				desc := ""
				for i := 0; i < 12; i++ {
					m := ms[r.Intn(len(ms))]
					cur.dur = time.Duration(r.Int63n(int64(3 * time.Second)))
					cur.err, cur.panic, cur.n = r.Intn(2) == 0, r.Intn(8) == 0, 0
					ctx, _ := rt.MarkedCtx(context.Background())
					args := m.Args(&rt.Fab{R: r}, ctx)
					o := rt.Invoke(dec, m, args)
					if cur.n != 1 || rec.Method != m.Name {
						rt.Viol(id, "%d calls of the base", cur.n)
						return
					}
					if s := rt.SameArgs(rec.Args, args); s != "" {
						rt.Viol(id, "%s: %s", m.Name, s)
					}
					res := "ok"
					if cur.panic {
						if !o.Panicked || o.Panic != "base" {
							rt.Viol(id, "the panic of the base does not reach the caller: %v", o.Panic)
						}
						// whatever a panic counts as, it is observed once
						res = "panic"
					} else {
						if o.Panicked {
							rt.Viol(id, "panic %v\n%s", o.Panic, o.Stack)
							return
						}
						if s := rt.SameAll(o.Results, rec.Results, "result"); s != "" {
							rt.Viol(id, "%s: %s", m.Name, s)
						}
						if m.Err && cur.err {
							res = "error"
						}
					}
					desc += fmt.Sprintf(" %s:%s:%v", m.Name, res, cur.dur)
					if res == "panic" {
						before = gather(id) // its label is not specified
						continue
					}
					after := gather(id)
					d := diff(before, after)
					before = after
					rt.Count("observations", 1)
					if len(d) != 1 {
						rt.Viol(id, "one call of %s changes %d series: %v", m.Name, len(d), d)
						return
					}
					for k, v := range d {
						if k.instance != inst || k.method != m.Name || k.result != res || (metric != "" && k.metric != metric) {
							rt.Viol(id, "the call of %s by %s with result %s (metric %q) is counted as %+v", m.Name, inst, res, metric, k)
						}
						if v.n != 1 || math.Abs(v.sum-cur.dur.Seconds()) > 1e-6*(1+math.Abs(v.sum)) {
							rt.Viol(id, "a call of %v is observed %d times, %v seconds", cur.dur, v.n, v.sum)
						}
						want[k] = val{want[k].n + 1, want[k].sum + cur.dur.Seconds()}
					}
				}
				rt.Eval(fmt.Sprint(id, k))
				rt.Sample("%s instance %s:%s -> %v", id, inst, desc, want)
			}); d != "" {
				rt.Viol(id, "%s", d)
			}
		}
		id := "prometheus/" + ifc.Key
		rt.Bubble(t, func() {
			before := gather(id)
			dec := mk(ifc.New(&rt.Impl{}), "shared")
			var wg sync.WaitGroup
			ms := ifc.Methods()
			for g := 0; g < 6; g++ {
				r := rt.Rand("prom-shared", g)
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < 10; i++ {
						m := ms[r.Intn(len(ms))]
						rt.Invoke(dec, m, m.Args(&rt.Fab{R: r}, context.Background()))
					}
				}()
			}
			wg.Wait()
			n := uint64(0)
			for _, v := range diff(before, gather(id)) {
				n += v.n
			}
			if n != 60 {
				rt.Viol(id, "60 concurrent calls are observed %d times", n)
			}
			rt.Count("concurrent_calls", 60)
		})
	}
}
