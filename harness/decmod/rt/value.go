// Package rt is compiled into the scratch module together with the generated
// decorators. It fabricates values, records what reaches the decorated
// implementation and holds the monitors.
package rt

import (
	"context"
	"database/sql"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

// Fab fabricates distinguishable values.
type Fab struct {
	R *rand.Rand
	// NoNil makes every pointer, map... non-nil
	NoNil bool
}

var uniq atomic.Int64

// Uniq returns a number not returned before.
func Uniq() int { return int(uniq.Add(1)) }

var registry []func() any

// Register adds a source of values for interface types.
func Register(f func() any) { registry = append(registry, f) }

// TestErr is the error type fakes return.
type TestErr struct{ N int }

func (e *TestErr) Error() string {
	if e.N%9 == 4 {
		return ""
	}
	return fmt.Sprintf("test error %d: 100%% \"odd\"; text", e.N)
}

// NewErr returns a unique error.
func NewErr() error { return &TestErr{Uniq()} }

// NilErr is an error type whose nil pointer is an error, too.
type NilErr struct{ N int }

func (e *NilErr) Error() string { return "an error that is a nil pointer" }

// FailErr returns an error of many kinds, well known ones included.
func FailErr() error {
	switch n := Uniq(); n % 14 {
	case 0:
		return context.Canceled
	case 1:
		return context.DeadlineExceeded
	case 2:
		return io.EOF
	case 3:
		return os.ErrDeadlineExceeded
	case 4:
		return (*NilErr)(nil)
	case 5:
		return fmt.Errorf("failure %d: %w", n, context.Canceled)
	case 6:
		return fmt.Errorf("failure %d: %w", n, context.DeadlineExceeded)
	case 7:
		return errors.Join(NewErr(), sql.ErrNoRows, NewErr())
	case 8:
		return sql.ErrNoRows
	}
	return NewErr()
}

var (
	errType = reflect.TypeOf((*error)(nil)).Elem()
	ctxType = reflect.TypeOf((*context.Context)(nil)).Elem()
)

type ctxKey struct{}

// MarkedCtx returns a context that carries a unique mark.
func MarkedCtx(parent context.Context) (context.Context, int) {
	n := Uniq()
	return context.WithValue(parent, ctxKey{}, n), n
}

// Mark reads the mark of a context.
func Mark(ctx context.Context) int {
	if ctx == nil {
		return -1
	}
	n, _ := ctx.Value(ctxKey{}).(int)
	return n
}

type strStringer string

func (s strStringer) String() string { return string(s) }

// Make returns a value of the type.
func (f *Fab) Make(t reflect.Type) reflect.Value { return f.mk(t, 4) }

func (f *Fab) mk(t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t {
	case errType:
		if f.R.Intn(3) > 0 {
			if f.R.Intn(2) == 0 {
				v.Set(reflect.ValueOf(fmt.Errorf("wrapped: %w", NewErr())))
			} else {
				v.Set(reflect.ValueOf(NewErr()))
			}
		}
		return v
	case ctxType:
		c, _ := MarkedCtx(context.Background())
		v.Set(reflect.ValueOf(c))
		return v
	case reflect.TypeOf(time.Time{}):
		v.Set(reflect.ValueOf(time.Unix(int64(1000000+Uniq()), 0).UTC()))
		return v
	}
	nilable := false
	switch t.Kind() {
	case reflect.Pointer, reflect.Map, reflect.Slice, reflect.Chan, reflect.Func, reflect.Interface:
		nilable = true
	}
	if depth <= 0 || (nilable && !f.NoNil && f.R.Intn(8) == 0) {
		return v
	}
	n := Uniq()
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(f.R.Intn(2) == 0)
	case reflect.Int, reflect.Int64, reflect.Int32:
		v.SetInt(int64(n))
	case reflect.Int16:
		v.SetInt(int64(n % 32000))
	case reflect.Int8:
		v.SetInt(int64(n % 127))
	case reflect.Uint, reflect.Uint64, reflect.Uint32, reflect.Uintptr:
		v.SetUint(uint64(n))
	case reflect.Uint16:
		v.SetUint(uint64(n % 65000))
	case reflect.Uint8:
		v.SetUint(uint64(n % 255))
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(n) + 0.5)
	case reflect.Complex64, reflect.Complex128:
		v.SetComplex(complex(float64(n), 1))
	case reflect.String:
		v.SetString(fmt.Sprintf("s%d %%d \"q\"", n))
	case reflect.Pointer:
		p := reflect.New(t.Elem())
		p.Elem().Set(f.mk(t.Elem(), depth-1))
		v.Set(p.Convert(t))
	case reflect.Slice:
		l := f.R.Intn(3)
		s := reflect.MakeSlice(t, l, l+1)
		for i := 0; i < l; i++ {
			s.Index(i).Set(f.mk(t.Elem(), depth-1))
		}
		v.Set(s)
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(f.mk(t.Elem(), depth-1))
		}
	case reflect.Map:
		m := reflect.MakeMap(t)
		for i := f.R.Intn(3); i > 0; i-- {
			k := f.mk(t.Key(), depth-1)
			if k.Comparable() {
				m.SetMapIndex(k, f.mk(t.Elem(), depth-1))
			}
		}
		v.Set(m)
	case reflect.Chan:
		v.Set(reflect.MakeChan(reflect.ChanOf(reflect.BothDir, t.Elem()), 1).Convert(t))
	case reflect.Func:
		out := make([]reflect.Value, t.NumOut())
		for i := range out {
			out[i] = reflect.Zero(t.Out(i))
		}
		v.Set(reflect.MakeFunc(t, func([]reflect.Value) []reflect.Value { return out }).Convert(t))
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if v.Field(i).CanSet() {
				v.Field(i).Set(f.mk(t.Field(i).Type, depth-1))
			}
		}
	case reflect.Interface:
		if t.NumMethod() == 0 {
			switch f.R.Intn(4) {
			case 0:
				v.Set(reflect.ValueOf(n))
			case 1:
				v.Set(reflect.ValueOf(&TestErr{n}))
			case 2:
				v.Set(reflect.ValueOf([]int{n}))
			default:
				v.Set(reflect.ValueOf(fmt.Sprintf("any%d", n)))
			}
			return v
		}
		cands := []any{strings.NewReader(fmt.Sprint(n)), strStringer(fmt.Sprint(n)), &strings.Builder{}, io.Reader(strings.NewReader("x"))}
		for _, c := range registry {
			cands = append(cands, c())
		}
		for _, c := range cands {
			if reflect.TypeOf(c).Implements(t) {
				v.Set(reflect.ValueOf(c))
				break
			}
		}
	}
	return v
}

// Same tells whether two values are the same value: equal, and for everything
// with an identity, the same object.
func Same(a, b reflect.Value) bool { return same(a, b, 6) }

func same(a, b reflect.Value, depth int) bool {
	if !a.IsValid() || !b.IsValid() {
		return a.IsValid() == b.IsValid()
	}
	if a.Type() != b.Type() {
		return false
	}
	if depth == 0 {
		return true
	}
	switch a.Kind() {
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float() || (a.Float() != a.Float() && b.Float() != b.Float())
	case reflect.Complex64, reflect.Complex128:
		return a.Complex() == b.Complex()
	case reflect.String:
		return a.String() == b.String()
	case reflect.Func:
		if a.CanInterface() && b.CanInterface() {
			return funcWord(a) == funcWord(b)
		}
		return a.Pointer() == b.Pointer()
	case reflect.Pointer, reflect.Map, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.Slice:
		return a.IsNil() == b.IsNil() && a.Len() == b.Len() && a.Cap() == b.Cap() && a.Pointer() == b.Pointer()
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i), depth-1) {
				return false
			}
		}
		return true
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(a.Field(i), b.Field(i), depth-1) {
				return false
			}
		}
		return true
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return same(a.Elem(), b.Elem(), depth-1)
	}
	return false
}

func funcWord(v reflect.Value) uintptr {
	p := reflect.New(v.Type())
	p.Elem().Set(v)
	return uintptr(*(*unsafe.Pointer)(p.UnsafePointer()))
}

// Show renders a value for a message.
func Show(v reflect.Value) string {
	if !v.IsValid() {
		return "<invalid>"
	}
	if !v.CanInterface() {
		return "<" + v.Type().String() + ">"
	}
	s := fmt.Sprintf("%v", v.Interface())
	if len(s) > 120 {
		s = s[:120] + "..."
	}
	return v.Type().String() + "(" + s + ")"
}

// ShowAll renders values.
func ShowAll(vs []reflect.Value) string {
	var ss []string
	for _, v := range vs {
		ss = append(ss, Show(v))
	}
	return "[" + strings.Join(ss, ", ") + "]"
}

// AsErr reads an error out of a value.
func AsErr(v reflect.Value) error {
	if !v.IsValid() || v.IsNil() {
		return nil
	}
	return v.Interface().(error)
}

func valueOfErr(err error) reflect.Value {
	v := reflect.New(errType).Elem()
	if err != nil {
		v.Set(reflect.ValueOf(err))
	}
	return v
}
