package rt

import (
	"context"
	"fmt"
	"math/rand"
	"reflect"
	"testing"

	"decmod/hook"
)

type validator interface{ Validate() error }

// ctxValidating is a context that can be validated too.
type ctxValidating struct {
	context.Context
	hit *bool
}

func (c ctxValidating) Validate() error { *c.hit = true; return fmt.Errorf("the context is validated") }

// checked is a value for parameters of interface types.
type checked struct {
	VID int
}

func (c checked) Validate() error { return hook.Validate(c.VID) }

// vid finds the identity the validation of a value reports.
func vid(v reflect.Value) (int, bool) {
	if !v.CanInterface() {
		return 0, false
	}
	x := v.Interface()
	if x == nil {
		return 0, false
	}
	if _, ok := x.(validator); !ok {
		return 0, false
	}
	e := reflect.ValueOf(x)
	switch e.Kind() {
	case reflect.Pointer:
		if e.IsNil() {
			return -1, true
		}
		e = e.Elem()
	case reflect.Slice:
		if e.Len() == 0 {
			return -2, true
		}
		return 1000000000 + int(e.Index(0).FieldByName("VID").Int()), true
	}
	return int(e.FieldByName("VID").Int()), true
}

// Validators is the monitor of the three validating decorators; check looks at
// the error a rejected call returns.
func Validators(t *testing.T, tmpl string, check func(got, rejected error) string) {
	Register(func() any { return checked{Uniq()} })
	for _, ifc := range Ifaces(tmpl) {
		mk := ifc.B[tmpl].(func(any) any)
		for _, m := range ifc.Methods() {
			for k := 0; k < N(40, 400); k++ {
				r := Rand(tmpl+ifc.Key+ifc.Where+m.Name, k)
				id := ifc.ID(tmpl, m)
				f := &Fab{R: r}
				ctxHit := false
				var rec *Call
				n := 0
				fail := r.Intn(3) == 0
				impl := &Impl{On: func(c *Call) {
					n++
					rec = c
					var err error
					if fail {
						err = FailErr()
					}
					c.SetResults(m.Res(&Fab{R: rand.New(rand.NewSource(int64(k)))}, err))
				}}
				dec := mk(ifc.New(impl))
				ctx, _ := MarkedCtx(context.Background())
				args := m.Args(f, ctxValidating{ctx, &ctxHit})
				for i := range args { // more of the values have something to validate
					if t := args[i].Type(); t.Kind() == reflect.Interface && !(i == 0 && m.Ctx) && reflect.TypeOf(checked{}).Implements(t) && r.Intn(3) > 0 {
						args[i] = reflect.New(t).Elem()
						args[i].Set(reflect.ValueOf(checked{Uniq()}))
					}
				}
				var ids []int
				var rejected []error
				firstBad := -1
				hook.Take()
				for i, a := range args {
					if i == 0 && m.Ctx {
						continue
					}
					if v, ok := vid(a); ok {
						ids = append(ids, v)
						var e error
						if r.Intn(4) == 0 {
							e = FailErr()
							if firstBad < 0 {
								firstBad = len(ids) - 1
							}
						}
						hook.Reject(v, e)
						rejected = append(rejected, e)
					}
				}
				if m.Err && firstBad >= 0 {
					// an identity may occur twice: what counts is what is registered now
					for i := range ids {
						if hookErr(ids[i]) != nil {
							firstBad = i
							break
						}
					}
				}
				hook.Take()
				o := Invoke(dec, m, args)
				seen := hook.Take()
				desc := fmt.Sprintf("arguments %s, values to validate %v, first invalid %d", ShowAll(args), ids, firstBad)
				if o.Panicked {
					Viol(id, "%s: panic %v\n%s", desc, o.Panic, o.Stack)
					continue
				}
				if ctxHit {
					Viol(id, "%s: the context is validated", desc)
				}
				want := ids
				if firstBad >= 0 {
					want = ids[:firstBad+1]
				}
				if !m.Err {
					want = nil
				}
				if fmt.Sprint(seen) != fmt.Sprint(want) && len(seen)+len(want) > 0 {
					Viol(id, "%s: validated %v instead of %v", desc, seen, want)
				}
				Count("validations", len(seen))
				Eval(id + fmt.Sprint(len(ids), firstBad, fail))
				if m.Err && firstBad >= 0 {
					Count("rejected", 1)
					if n != 0 {
						Viol(id, "%s: the base is called with an invalid argument", desc)
					}
					if s := ZeroExceptErr(m, o.Results); s != "" {
						Viol(id, "%s: %s", desc, s)
					}
					if s := check(o.Err(), hookErr(ids[firstBad])); s != "" {
						Viol(id, "%s: %s", desc, s)
					}
					Sample("%s (%s): %d values to validate, number %d is invalid: error %v, base not called", id, m.Sig(), len(ids), firstBad, o.Err())
					continue
				}
				Count("passed", 1)
				if n != 1 || rec.Method != m.Name {
					Viol(id, "%s: %d calls of the base instead of 1", desc, n)
					continue
				}
				if s := SameArgs(rec.Args, args); s != "" {
					Viol(id, "%s: %s", desc, s)
				}
				if s := SameAll(o.Results, rec.Results, "result"); s != "" {
					Viol(id, "%s: %s", desc, s)
				}
			}
		}
	}
}

func hookErr(id int) error { return hook.Err(id) }

// Validate is the monitor of the validate decorator.
func Validate(t *testing.T) {
	Validators(t, "validate", func(got, rejected error) string {
		if got != rejected {
			return fmt.Sprintf("the error is %v instead of the one of the validation, %v", got, rejected)
		}
		return ""
	})
}
