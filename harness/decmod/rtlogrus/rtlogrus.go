// Package rtlogrus monitors the logrus decorator.
package rtlogrus

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"testing"

	"decmod/rt"

	"github.com/sirupsen/logrus"
)

type entry struct {
	level  logrus.Level
	msg    string
	fields map[string]any
}

type hook struct {
	mu sync.Mutex
	es []entry
}

func (h *hook) Levels() []logrus.Level { return logrus.AllLevels }
func (h *hook) Fire(e *logrus.Entry) error {
	h.mu.Lock()
	defer h.mu.Unlock()
	f := map[string]any{}
	for k, v := range e.Data {
		f[k] = v
	}
	h.es = append(h.es, entry{e.Level, e.Message, f})
	return nil
}

func (h *hook) all() []entry {
	h.mu.Lock()
	defer h.mu.Unlock()
	return append([]entry(nil), h.es...)
}

// Logrus is the monitor.
func Logrus(t *testing.T) {
	for _, ifc := range rt.Ifaces("logrus") {
		mk := ifc.B["logrus"].(func(any, *logrus.Entry) any)
		for _, m := range ifc.Methods() {
			for k := 0; k < rt.N(16, 200); k++ {
				one(ifc, m, mk, k)
			}
		}
		shared(ifc, mk)
	}
}

func one(ifc *rt.Iface, m rt.Meth, mk func(any, *logrus.Entry) any, k int) {
	r := rt.Rand("logrus"+ifc.Key+ifc.Where+m.Name, k)
	id := ifc.ID("logrus", m)
	fail, boom := r.Intn(2) == 0, r.Intn(6) == 0
	h := &hook{}
	lg := logrus.New()
	lg.SetLevel(logrus.DebugLevel)
	lg.SetOutput(io.Discard)
	lg.AddHook(h)
	n, before := 0, -1
	var rec *rt.Call
	impl := &rt.Impl{On: func(c *rt.Call) {
		n++
		rec = c
		before = len(h.all())
		if boom {
			panic("base")
		}
		var err error
		if fail {
			err = rt.FailErr()
		}
		c.SetResults(m.Res(&rt.Fab{R: rand.New(rand.NewSource(int64(k)))}, err))
	}}
	dec := mk(ifc.New(impl), logrus.NewEntry(lg).WithField("own field", 1))
	ctx, _ := rt.MarkedCtx(context.Background())
	args := m.Args(&rt.Fab{R: r}, ctx)
	o := rt.Invoke(dec, m, args)
	if n != 1 || rec.Method != m.Name {
		rt.Viol(id, "%d calls of the base", n)
		return
	}
	if s := rt.SameArgs(rec.Args, args); s != "" {
		rt.Viol(id, "%s", s)
	}
	es := h.all()
	rt.Count("entries", len(es))
	rt.Eval(fmt.Sprint(id, fail, boom, k))
	if before != 1 {
		rt.Viol(id, "%d entries are logged before the call of the base instead of 1", before)
		return
	}
	if len(es) != 2 {
		rt.Viol(id, "%d entries are logged instead of 2", len(es))
		return
	}
	for i := range es {
		if es[i].fields["own field"] != 1 {
			rt.Viol(id, "the fields of the given entry are lost")
		}
		delete(es[i].fields, "own field")
		if !strings.Contains(es[i].msg, m.Name) {
			rt.Viol(id, "the message %q does not name the method", es[i].msg)
		}
	}
	if es[0].level != logrus.DebugLevel {
		rt.Viol(id, "the call is logged with the level %v", es[0].level)
	}
	if s := rt.CheckFields(m, es[0].fields, args, false, true); s != "" {
		rt.Viol(id, "call: %s", s)
	}
	if boom {
		if !o.Panicked || o.Panic != "base" {
			rt.Viol(id, "the panic of the base does not reach the caller: %v", o.Panic)
		}
		return
	}
	if o.Panicked {
		rt.Viol(id, "panic %v\n%s", o.Panic, o.Stack)
		return
	}
	if s := rt.SameAll(o.Results, rec.Results, "result"); s != "" {
		rt.Viol(id, "%s", s)
	}
	want := logrus.DebugLevel
	if m.Err && fail {
		want = logrus.ErrorLevel
		rt.Count("error_entries", 1)
	}
	if es[1].level != want {
		rt.Viol(id, "error=%v: the results are logged with the level %v instead of %v", m.Err && fail, es[1].level, want)
	}
	if s := rt.CheckFields(m, es[1].fields, o.Results, true, true); s != "" {
		rt.Viol(id, "results: %s", s)
	}
	rt.Sample("%s (%s) error=%v: %v %q %v, %v %q %v", id, m.Sig(), m.Err && fail, es[0].level, es[0].msg, len(es[0].fields), es[1].level, es[1].msg, len(es[1].fields))
}

func shared(ifc *rt.Iface, mk func(any, *logrus.Entry) any) {
	h := &hook{}
	lg := logrus.New()
	lg.SetLevel(logrus.DebugLevel)
	lg.SetOutput(io.Discard)
	lg.AddHook(h)
	dec := mk(ifc.New(&rt.Impl{}), logrus.NewEntry(lg))
	var wg sync.WaitGroup
	ms := ifc.Methods()
	for g := 0; g < 6; g++ {
		r := rt.Rand("logrus-shared", g)
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 10; i++ {
				m := ms[r.Intn(len(ms))]
				rt.Invoke(dec, m, m.Args(&rt.Fab{R: r}, context.Background()))
			}
		}()
	}
	wg.Wait()
	if n := len(h.all()); n != 120 {
		rt.Viol("logrus/"+ifc.Key, "60 concurrent calls log %d entries", n)
	}
}
