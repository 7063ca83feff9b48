// Package rttwirp monitors twirp_validate and twirp_error.
package rttwirp

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"testing"

	"decmod/rt"

	"github.com/twitchtv/twirp"
)

// Validate is the monitor of twirp_validate.
func Validate(t *testing.T) {
	rt.Validators(t, "twirp_validate", func(got, rejected error) string {
		e, ok := got.(twirp.Error)
		if !ok {
			return fmt.Sprintf("the error %v is not a twirp.Error", got)
		}
		if e.Code() != twirp.InvalidArgument || e.Msg() != rejected.Error() {
			return fmt.Sprintf("the error is %s %q instead of %s %q", e.Code(), e.Msg(), twirp.InvalidArgument, rejected.Error())
		}
		return ""
	})
}

// Error is the monitor of twirp_error.
func Error(t *testing.T) {
	codes := []twirp.ErrorCode{twirp.NotFound, twirp.Internal, twirp.InvalidArgument, twirp.Unavailable, twirp.PermissionDenied}
	for _, ifc := range rt.Ifaces("twirp_error") {
		mk := ifc.B["twirp_error"].(func(any) any)
		for _, m := range ifc.Methods() {
			for k := 0; k < rt.N(40, 400); k++ {
				r := rt.Rand("twirp_error"+ifc.Key+ifc.Where+m.Name, k)
				id := ifc.ID("twirp_error", m)
				var given error
				var tw twirp.Error
				switch r.Intn(6) {
				case 0:
				case 4: // a twirp error that another one is around
					given = fmt.Errorf("around: %w", twirp.NewError(codes[r.Intn(len(codes))], rt.NewErr().Error()).WithMeta("key", "value"))
				case 5:
					given = errors.Join(rt.NewErr(), twirp.NotFoundError("nothing"))
				case 1:
					given = rt.FailErr()
				case 2:
					tw = twirp.NewError(codes[r.Intn(len(codes))], rt.NewErr().Error())
					for i := r.Intn(3); i > 0; i-- {
						tw = tw.WithMeta(fmt.Sprintf("key%d", i), fmt.Sprintf("value %d", r.Intn(1000)))
					}
					given = tw
				default:
					given = fmt.Errorf("around: %w", rt.FailErr())
				}
				n := 0
				var rec *rt.Call
				impl := &rt.Impl{On: func(c *rt.Call) {
					n++
					rec = c
					c.SetResults(m.Res(&rt.Fab{R: rand.New(rand.NewSource(int64(k)))}, given))
				}}
				dec := mk(ifc.New(impl))
				ctx, _ := rt.MarkedCtx(context.Background())
				args := m.Args(&rt.Fab{R: r}, ctx)
				// what the request is before the call
				first := 0
				if m.Ctx {
					first = 1
				}
				wantMeta := ""
				hasReq := m.Err && len(args) > first
				if hasReq {
					b, _ := json.Marshal(args[first].Interface())
					wantMeta = string(b)
				}
				o := rt.Invoke(dec, m, args)
				if o.Panicked {
					rt.Viol(id, "panic %v\n%s", o.Panic, o.Stack)
					continue
				}
				if n != 1 || rec.Method != m.Name {
					rt.Viol(id, "%d calls of the base", n)
					continue
				}
				if s := rt.SameArgs(rec.Args, args); s != "" {
					rt.Viol(id, "%s", s)
				}
				rt.Count("calls", 1)
				rt.Eval(fmt.Sprint(id, k))
				if !m.Err || given == nil || !hasReq {
					if s := rt.SameAll(o.Results, rec.Results, "result"); s != "" {
						rt.Viol(id, "error %v: %s", given, s)
					}
					continue
				}
				if s := rt.SameAll(o.Results[:len(o.Results)-1], rec.Results[:len(rec.Results)-1], "result"); s != "" {
					rt.Viol(id, "%s", s)
				}
				got, ok := o.Err().(twirp.Error)
				if !ok {
					rt.Viol(id, "the error %v is returned as %T, not as a twirp.Error", given, o.Err())
					continue
				}
				rt.Count("errors", 1)
				if got.Meta("request") != wantMeta {
					rt.Viol(id, "the metadata has the request %q instead of %q (arguments %s)", got.Meta("request"), wantMeta, rt.ShowAll(args))
				}
				if tw != nil {
					rt.Count("twirp_errors", 1)
					if got.Code() != tw.Code() || got.Msg() != tw.Msg() {
						rt.Viol(id, "the error %s %q becomes %s %q", tw.Code(), tw.Msg(), got.Code(), got.Msg())
					}
					for k, v := range tw.MetaMap() {
						if got.Meta(k) != v {
							rt.Viol(id, "the metadata %s=%q becomes %q", k, v, got.Meta(k))
						}
					}
					if tw.Meta("request") != "" {
						rt.Viol(id, "the error of the base is changed")
					}
				} else {
					if got.Code() != twirp.Internal || got.Msg() != given.Error() {
						rt.Viol(id, "the error %q becomes %s %q instead of an internal one", given, got.Code(), got.Msg())
					}
					if !errors.Is(got, given) {
						rt.Viol(id, "the error %q cannot be unwrapped from the one returned", given)
					}
				}
				rt.Sample("%s (%s): %T %v -> %s %q request=%s", id, m.Sig(), given, given, got.Code(), got.Msg(), wantMeta)
			}
		}
		// a panic of the base
		for _, m := range ifc.Methods() {
			dec := mk(ifc.New(&rt.Impl{On: func(*rt.Call) { panic("base") }}))
			o := rt.Invoke(dec, m, m.Args(&rt.Fab{R: rt.Rand("p", 1)}, context.Background()))
			if !o.Panicked || o.Panic != "base" {
				rt.Viol(ifc.ID("twirp_error", m), "the panic of the base does not reach the caller: %v", o.Panic)
			}
		}
		// shared
		dec := mk(ifc.New(&rt.Impl{On: func(c *rt.Call) {
			for _, m := range ifc.Methods() {
				if m.Name == c.Method {
					c.SetResults(m.Res(&rt.Fab{R: rand.New(rand.NewSource(1))}, rt.NewErr()))
				}
			}
		}}))
		var wg sync.WaitGroup
		ms := ifc.Methods()
		for g := 0; g < 6; g++ {
			r := rt.Rand("tws", g)
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 10; i++ {
					m := ms[r.Intn(len(ms))]
					rt.Invoke(dec, m, m.Args(&rt.Fab{R: r}, context.Background()))
				}
			}()
		}
		wg.Wait()
	}
}
