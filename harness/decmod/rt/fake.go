package rt

import (
	"context"
	"fmt"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// Impl is behind every fake implementation.
type Impl struct {
	ID int
	On func(c *Call)
}

// Call is one call that reached an implementation.
type Call struct {
	Impl    *Impl
	Method  string
	Args    []reflect.Value
	Results []reflect.Value // to be set
	Ctx     context.Context // the first argument, when it is a context
	Begin   time.Time
	End     time.Time
}

// Call is what the methods of the fakes do.
func (i *Impl) Call(method string, args, results []any) {
	c := &Call{Impl: i, Method: method, Begin: time.Now()}
	for n, a := range args {
		p := reflect.ValueOf(a).Elem()
		v := reflect.New(p.Type()).Elem()
		v.Set(p)
		c.Args = append(c.Args, v)
		if n == 0 && p.Type() == ctxType {
			c.Ctx, _ = p.Interface().(context.Context)
		}
	}
	for _, r := range results {
		c.Results = append(c.Results, reflect.ValueOf(r).Elem())
	}
	if i.On == nil {
		return
	}
	i.On(c)
}

// SetResults sets the results of a call.
func (c *Call) SetResults(rs []reflect.Value) {
	for i := range c.Results {
		c.Results[i].Set(rs[i])
	}
}

// Meth describes a method of an interface.
type Meth struct {
	Name     string
	Type     reflect.Type // of the interface's method: no receiver
	Ctx, Err bool
	Open     func(any) any
	Params   []string // names in the source, "" when there is none
	Results  []string
}

// NIn is the number of parameters.
func (m Meth) NIn() int { return m.Type.NumIn() }

// Iface is an interface with its generated decorators.
type Iface struct {
	Name    string
	Where   string // "cross" or "same"
	Key     string // identifies the source interface
	Vars    map[string]map[string]string
	Type    reflect.Type
	New     func(*Impl) any
	Open    func(any) any     // makes unexported methods callable
	B       map[string]any    // template -> builder
	Dec     map[string]string // template -> decorator name
	PNames  map[string][]string
	RNames  map[string][]string
	methods []Meth
}

// Methods lists the methods.
func (i *Iface) Methods() []Meth {
	if i.methods == nil {
		for k := 0; k < i.Type.NumMethod(); k++ {
			m := i.Type.Method(k)
			if m.PkgPath != "" && i.Open == nil {
				continue
			}
			me := Meth{Name: m.Name, Type: m.Type, Params: i.PNames[m.Name], Results: i.RNames[m.Name]}
			me.Ctx = m.Type.NumIn() > 0 && m.Type.In(0) == ctxType && !(m.Type.IsVariadic() && m.Type.NumIn() == 1)
			me.Err = m.Type.NumOut() > 0 && m.Type.Out(m.Type.NumOut()-1) == errType
			if m.PkgPath != "" {
				me.Open = i.Open
			}
			i.methods = append(i.methods, me)
		}
	}
	return i.methods
}

// Pick returns the methods that satisfy a condition.
func (i *Iface) Pick(f func(Meth) bool) []Meth {
	var out []Meth
	for _, m := range i.Methods() {
		if f(m) {
			out = append(out, m)
		}
	}
	return out
}

// Args fabricates arguments; ctx replaces the first one when not nil.
func (m Meth) Args(f *Fab, ctx context.Context) []reflect.Value {
	var out []reflect.Value
	for i := 0; i < m.Type.NumIn(); i++ {
		if i == 0 && m.Ctx && ctx != nil {
			v := reflect.New(ctxType).Elem()
			v.Set(reflect.ValueOf(ctx))
			out = append(out, v)
			continue
		}
		out = append(out, f.Make(m.Type.In(i)))
	}
	return out
}

// Res fabricates results, with the error replaced when the method has one.
func (m Meth) Res(f *Fab, err error) []reflect.Value {
	var out []reflect.Value
	for i := 0; i < m.Type.NumOut(); i++ {
		if i == m.Type.NumOut()-1 && m.Err {
			v := reflect.New(errType).Elem()
			if err != nil {
				v.Set(reflect.ValueOf(err))
			}
			out = append(out, v)
			continue
		}
		out = append(out, f.Make(m.Type.Out(i)))
	}
	return out
}

// Outcome of calling a decorator.
type Outcome struct {
	Results  []reflect.Value
	Panicked bool
	Panic    any
	Exited   bool // runtime.Goexit
	Stack    string
	At       time.Time
}

// Err is the error among the results.
func (o Outcome) Err() error {
	if len(o.Results) == 0 {
		return nil
	}
	l := o.Results[len(o.Results)-1]
	if l.Type() != errType {
		return nil
	}
	return AsErr(l)
}

// Invoke calls a method.
func Invoke(dec any, m Meth, args []reflect.Value) (o Outcome) {
	returned := false
	defer func() {
		if r := recover(); r != nil {
			o.Panicked, o.Panic = true, r
			buf := make([]byte, 4096)
			o.Stack = string(buf[:runtime.Stack(buf, false)])
		} else if !returned {
			o.Exited = true
		}
		o.At = time.Now()
	}()
	f := reflect.ValueOf(dec)
	if m.Open == nil {
		f = f.MethodByName(m.Name)
	} else {
		Count("unexported_calls", 1)
		f = reflect.ValueOf(m.Open(dec)).MethodByName("Zz_" + m.Name)
	}
	if !f.IsValid() {
		panic("the decorator has no method " + m.Name)
	}
	if f.Type() != m.Type {
		panic(fmt.Sprintf("the decorator's method %s has type %v instead of %v", m.Name, f.Type(), m.Type))
	}
	if m.Type.IsVariadic() {
		o.Results = f.CallSlice(args)
	} else {
		o.Results = f.Call(args)
	}
	returned = true
	return o
}

// SameAll compares value lists and describes the first difference.
func SameAll(got, want []reflect.Value, what string) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d %ss instead of %d", len(got), what, len(want))
	}
	for i := range got {
		if !Same(got[i], want[i]) {
			return fmt.Sprintf("%s %d is %s instead of %s", what, i, Show(got[i]), Show(want[i]))
		}
	}
	return ""
}

// SameArgs compares arguments; a context only has to carry the same mark.
func SameArgs(got, want []reflect.Value) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d arguments instead of %d", len(got), len(want))
	}
	for i := range got {
		if i == 0 && got[i].Type() == ctxType && want[i].Type() == ctxType {
			g, _ := got[i].Interface().(context.Context)
			w, _ := want[i].Interface().(context.Context)
			if Mark(g) != Mark(w) {
				return fmt.Sprintf("the context carries value %d instead of %d", Mark(g), Mark(w))
			}
			continue
		}
		if !Same(got[i], want[i]) {
			return fmt.Sprintf("argument %d is %s instead of %s", i, Show(got[i]), Show(want[i]))
		}
	}
	return ""
}

// ZeroExceptErr checks that all the results but the error are zero values.
func ZeroExceptErr(m Meth, rs []reflect.Value) string {
	for i := range rs {
		if i == len(rs)-1 && m.Err {
			continue
		}
		if !rs[i].IsZero() {
			return fmt.Sprintf("result %d is %s instead of the zero value", i, Show(rs[i]))
		}
	}
	return ""
}

var (
	ifMu   sync.Mutex
	ifaces []*Iface
)

// Add registers an interface; it is called by the generated code.
func Add(i *Iface) {
	ifMu.Lock()
	defer ifMu.Unlock()
	ifaces = append(ifaces, i)
}

// Ifaces lists the interfaces that have a decorator of a template.
func Ifaces(tmpl string) []*Iface {
	ifMu.Lock()
	defer ifMu.Unlock()
	var out []*Iface
	for _, i := range ifaces {
		if i.B[tmpl] != nil {
			out = append(out, i)
		}
	}
	sort.SliceStable(out, func(a, b int) bool { return out[a].Key+out[a].Dec[tmpl] < out[b].Key+out[b].Dec[tmpl] })
	return out
}

// Log collects the calls that reached implementations.
type Log struct {
	mu    sync.Mutex
	calls []*Call
}

// Add records a call and returns its number.
func (l *Log) Add(c *Call) int {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.calls = append(l.calls, c)
	return len(l.calls) - 1
}

// Calls returns what was recorded so far.
func (l *Log) Calls() []*Call {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]*Call(nil), l.calls...)
}

// ID names a case in a report.
func (i *Iface) ID(tmpl string, m Meth) string {
	return fmt.Sprintf("%s/%s.%s", tmpl, i.Key, m.Name)
}

// Sig tells the shape of a method.
func (m Meth) Sig() string {
	s := []string{}
	if m.Ctx {
		s = append(s, "ctx")
	}
	if m.Err {
		s = append(s, "err")
	}
	s = append(s, fmt.Sprintf("%d-%d", m.Type.NumIn(), m.Type.NumOut()))
	if m.Type.IsVariadic() {
		s = append(s, "variadic")
	}
	return strings.Join(s, ",")
}
