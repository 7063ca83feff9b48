package rt

import (
	"bytes"
	"context"
	"fmt"
	"io"
	"math/rand"
	"strings"
	"sync"
	"testing"
	"time"
)

type sink struct {
	mu    sync.Mutex
	b     bytes.Buffer
	lines []string
}

func (s *sink) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.lines = append(s.lines, string(p))
	return len(p), nil
}

func (s *sink) all() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.lines...)
}

// inOrder tells which of the pieces is not found after, and apart from, the previous ones.
func inOrder(text string, pieces []string) string {
	pos := 0
	for i, p := range pieces {
		if i > 0 {
			pos++
		}
		if pos > len(text) {
			return p
		}
		k := strings.Index(text[pos:], p)
		if k < 0 {
			return p
		}
		pos += k + len(p)
	}
	return ""
}

// LogDecorator is the monitor of the log decorator.
func LogDecorator(t *testing.T) {
	for _, ifc := range Ifaces("log") {
		mk := ifc.B["log"].(func(any, io.Writer, io.Writer) any)
		for _, m := range ifc.Methods() {
			for k := 0; k < N(16, 200); k++ {
				r := Rand("log"+ifc.Key+ifc.Where+m.Name, k)
				id := ifc.ID("log", m)
				fail := r.Intn(2) == 0
				how := r.Intn(6) // 0: panic
				Bubble(t, func() {
					out, errs := &sink{}, &sink{}
					var rec *Call
					before := -1
					n := 0
					impl := &Impl{On: func(c *Call) {
						n++
						rec = c
						before = len(out.all())
						if len(errs.all()) != 0 {
							Viol(id, "something is logged as an error before the call")
						}
						time.Sleep(time.Second)
						if how == 0 {
							panic("base")
						}
						var err error
						if fail {
							err = FailErr()
						}
						c.SetResults(m.Res(&Fab{R: rand.New(rand.NewSource(int64(k)))}, err))
					}}
					dec := mk(ifc.New(impl), out, errs)
					ctx, _ := MarkedCtx(context.Background())
					args := m.Args(&Fab{R: r}, ctx)
					o := Invoke(dec, m, args)
					if n != 1 || rec.Method != m.Name {
						Viol(id, "%d calls of the base", n)
						return
					}
					if s := SameArgs(rec.Args, args); s != "" {
						Viol(id, "%s", s)
					}
					so, se := out.all(), errs.all()
					if before != 1 {
						Viol(id, "%d lines are written before the call of the base, instead of 1", before)
						return
					}
					Count("lines", len(so)+len(se))
					Eval(id + fmt.Sprint(fail, how == 0, k))
					pieces := []string{m.Name}
					for _, a := range args {
						pieces = append(pieces, fmt.Sprint(a.Interface()))
					}
					if miss := inOrder(so[0], pieces); miss != "" {
						Viol(id, "the line about the call does not have %q in its place: %q", miss, so[0])
					}
					if how == 0 {
						if !o.Panicked || o.Panic != "base" {
							Viol(id, "the panic of the base does not reach the caller: %v", o.Panic)
						}
						if len(so)+len(se) != 2 {
							Viol(id, "%d lines for a call that panics", len(so)+len(se))
						}
						Count("panics", 1)
						return
					}
					if o.Panicked {
						Viol(id, "panic %v\n%s", o.Panic, o.Stack)
						return
					}
					if s := SameAll(o.Results, rec.Results, "result"); s != "" {
						Viol(id, "%s", s)
					}
					isErr := m.Err && fail
					var second string
					switch {
					case isErr && len(so) == 1 && len(se) == 1:
						second = se[0]
						Count("errors_logged", 1)
					case !isErr && len(so) == 2 && len(se) == 0:
						second = so[1]
					default:
						Viol(id, "error %v: %d lines on the standard and %d on the error output", isErr, len(so), len(se))
						return
					}
					pieces = []string{m.Name}
					for _, v := range o.Results {
						pieces = append(pieces, fmt.Sprint(v.Interface()))
					}
					if miss := inOrder(second, pieces); miss != "" {
						Viol(id, "the line about the results does not have %q in its place: %q", miss, second)
					}
					Sample("%q, %q", so[0], second)
				})
			}
		}
	}
}
